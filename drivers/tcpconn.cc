// Driver for connections: one end is a Connection, the other another Connection or a raw socket.
#include <sched.h>
#include "net.h"
#include "conc.h"
#include "asio/io_service.hpp"
#include "maidsafe/common/asio_service.h"
#include "maidsafe/common/tcp/connection.h"
#include "maidsafe/common/tcp/listener.h"

using maidsafe::tcp::Connection;
using maidsafe::tcp::ConnectionPtr;
using maidsafe::tcp::Listener;
using maidsafe::tcp::Message;

static std::map<int, size_t> g_size;  // of messages
static std::vector<unsigned char> g_pattern;
static Message Content(int id, size_t n) {
  Message m(g_pattern.begin() + id, g_pattern.begin() + id + long(n));
  if (n) m[0] = (unsigned char)id;
  return m;
}
static int IdOf(const unsigned char* p, size_t n) {
  if (!n) return -8;
  auto it = g_size.find(p[0]);
  if (it == g_size.end() || it->second != n) return -9;
  Message m = Content(p[0], n);
  return memcmp(m.data(), p, n) ? -9 : p[0];
}
struct End {
  ConnectionPtr c;
  bool started = false, late = false, want = false, closed = false;
  int sent = 0, got = 0;  // sent: towards this end
};

int main() {
  net::Isolate();
  g_pattern.resize(1100000);
  uint32_t x = 1;
  for (auto& b : g_pattern) b = (unsigned char)((x = x * 1664525 + 1013904223) >> 24);
  // config: threads, own strands, peer (0 direct, 1 raw, 2 through a relay), end 1 is the accepted one,
  // final actions, small socket buffers
  return conc::Main([](const std::vector<int>& cfg, const conc::Program& p) {
    const bool raw = cfg[2] == 1, relayed = cfg[2] == 2, accepted = cfg[3];
    g_size.clear();
    End ends[3];
    bool fin = false, over = false;
    int peer = -1;
    net::Relay relay;
    std::string in;  // what the raw peer has read
    maidsafe::AsioService service{size_t(cfg[0])};
    asio::io_service::strand s1(service.service()), s2(service.service());
    asio::io_service::strand& t2 = cfg[1] ? s2 : s1;
    auto real_sleep = [] {
      struct timespec ts = {0, 2000000};
      syscall(SYS_nanosleep, &ts, nullptr);
    };
    auto until = [&](std::function<bool()> f) {
      for (int i = 0; i < 1500; ++i) {
        sched::Quiesce();
        if (relay.Pump()) {
          i = 0;
          continue;
        }
        if (f()) return;
        real_sleep();
      }
    };
    // connect
    {
      maidsafe::tcp::ListenerPtr l;
      ConnectionPtr got;
      int listening = -1, port = 0;
      if (raw && !accepted) {
        listening = net::Listen(0);
        port = net::Port(listening);
        ends[1].c = Connection::MakeShared(s1, maidsafe::tcp::Port(port));
        peer = accept(listening, nullptr, nullptr);
        close(listening);
      } else {
        l = Listener::MakeShared(s1, [&](ConnectionPtr c) { sched::NoSwitch g; got = c; }, maidsafe::tcp::Port(5483 + getpid() % 4000));
        port = l->ListeningPort();
        if (raw) {
          peer = net::Connect(port);
        } else if (relayed) {
          listening = net::Listen(0);
          ends[2].c = Connection::MakeShared(t2, maidsafe::tcp::Port(net::Port(listening)));
          relay.fd[0] = accept(listening, nullptr, nullptr);
          close(listening);
          relay.fd[1] = net::Connect(port);
        } else {
          ends[2].c = Connection::MakeShared(t2, maidsafe::tcp::Port(port));
        }
        until([&] { return bool(got); });
        ends[1].c = got;
        got.reset();
        l->StopListening();
        sched::Quiesce();
        if (!raw && !accepted) std::swap(ends[1].c, ends[2].c);
      }
      if (!ends[1].c || (raw ? peer < 0 : !ends[2].c)) throw std::runtime_error("no connection");
    }
    if (raw) {
      int one = 1;
      setsockopt(peer, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    }
    if (cfg[5])
      for (auto& e : ends)
        if (e.c) net::SmallBuffers(e.c->Socket().native_handle());
    auto ending = [&](int x) {
      return ends[1].want || ends[2].want || ends[1].closed || ends[2].closed || fin || (over && ends[1].started);
    };
    auto write_raw = [&](const std::string& s) {
      size_t off = 0;
      for (int tries = 0; off < s.size() && tries < 2000;) {
        size_t n = net::Some(s.size() - off);
        ssize_t w = send(peer, s.data() + off, n, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (w < 0) {
          if (errno != EAGAIN) return;
          ++tries;
          real_sleep();
        } else {
          off += size_t(w);
        }
        sched::Point();
      }
    };
    auto header = [](uint32_t n) {
      std::string h;
      for (int i = 3; i >= 0; --i) h += char(n >> (8 * i));
      return h;
    };
    auto op = [&](int, const conc::Op& o) {
      switch (o[0]) {
        case 1: {
          End& other = ends[3 - o[1]];
          Message m;
          {
            sched::NoSwitch g;
            m = Content(o[2], size_t(o[3]));
            g_size[o[2]] = m.size();
          }
          conc::Ev("call", "send", std::to_string(o[1]) + "," + std::to_string(o[2]) + "," + std::to_string(o[3]));
          std::string r = "ok";
          try {
            ends[o[1]].c->Send(std::move(m));
          } catch (const maidsafe::maidsafe_error& e) {
            r = proto::ErrCode(e.code());
          }
          sched::NoSwitch g;
          if (r == "ok") ++other.sent;
          conc::Ev("ret", "send", "", r);
          break;
        }
        case 2: {
          const int x = o[1], tag = o[2];
          conc::Ev("call", "start", std::to_string(x) + "," + std::to_string(tag));
          End* e = &ends[x];
          e->started = true;
          std::string t = std::to_string(tag), xs = std::to_string(x);
          e->c->Start(
              [=](Message m) {
                std::string id = std::to_string(IdOf(m.data(), m.size()));
                conc::Ev("begin", "msg", xs + "," + id + "," + t);
                sched::Point();
                ++e->got;
                conc::Ev("done", "msg", xs + "," + id);
              },
              [=] {
                conc::Ev("begin", "closed", xs + ",0," + t);
                sched::Point();
                e->closed = true;
                conc::Ev("done", "closed", xs);
              });
          sched::NoSwitch g;
          e->late = e->late || ending(x);
          conc::Ev("ret", "start", "", "ok");
          break;
        }
        case 3: {
          conc::Ev("call", "close", std::to_string(o[1]));
          ends[o[1]].want = true;
          ends[o[1]].c->Close();
          conc::Ev("ret", "close", "", "ok");
          break;
        }
        case 4: {
          Message m = Content(o[1], size_t(o[2]));
          {
            sched::NoSwitch g;
            g_size[o[1]] = m.size();
            ++ends[1].sent;
            conc::Ev("raw", "frame", std::to_string(o[1]));
          }
          write_raw(header(uint32_t(m.size())) + std::string(m.begin(), m.end()));
          break;
        }
        case 5: {
          static const uint32_t n[] = {1048577, 0x7fffffff, 0x80000000, 0xffffffff, 0x01000000, 0x00200000};
          over = true;
          conc::Ev("raw", "over");
          write_raw(header(n[o[1] % 6]) + std::string(size_t(o[2]), 'x'));
          break;
        }
        case 6:
          conc::Ev("raw", "part");
          write_raw((header(9) + "12345678").substr(0, size_t(o[1])));
          break;
        case 7:
          {
            sched::NoSwitch g;
            fin = true;
            conc::Ev("raw", "fin");
          }
          shutdown(peer, SHUT_WR);
          break;
        case 8: {
          sched::NoSwitch g;
          fin = true;
          conc::Ev("raw", "rst");
          net::Reset(peer);
          peer = -1;
          break;
        }
        case 9: sched::Point(); break;
      }
    };
    size_t parsed = 0;
    std::string ids;
    int count = 0;
    auto drain = [&] {
      if (peer < 0) return;
      std::vector<char> buf(1 << 18);
      for (;;) {
        sched::NoSwitch g;
        ssize_t n = recv(peer, buf.data(), buf.size(), MSG_DONTWAIT);
        if (n <= 0) break;
        in.append(buf.data(), size_t(n));
      }
      while (in.size() - parsed >= 4) {
        auto u = reinterpret_cast<const unsigned char*>(in.data()) + parsed;
        size_t n = size_t(u[0]) << 24 | size_t(u[1]) << 16 | size_t(u[2]) << 8 | u[3];
        if (in.size() - parsed < 4 + n) break;
        ids += (count++ ? "," : "") + std::to_string(IdOf(u + 4, n));
        parsed += 4 + n;
      }
    };
    auto settled = [&] {
      drain();
      if (raw && !ending(1) && count < ends[2].sent) return false;
      for (int x = 1; x <= (raw ? 1 : 2); ++x) {
        End& e = ends[x];
        if (!e.started) continue;
        if (ending(x) ? !e.late && !e.closed : e.got < e.sent) return false;
      }
      return true;
    };
    auto quiet = [&] {
      until(settled);
      conc::Ev("quiet", "quiet");
      if (raw && peer >= 0) conc::Ev("wire", "wire", ids, parsed == in.size() ? "whole" : "partial");
    };
    if (cfg[4] & 1) {
      op(0, {2, 1, 1});
      if (!raw) op(0, {2, 2, 2});
    }
    conc::Clients c;
    c.Start(p, op);
    if ((cfg[4] & 2) || relayed) {
      // the raw peer reads all the time
      for (int i = 0; i < 20; ++i) {
        drain();
        relay.Pump();
        sched::Point();
      }
    }
    c.Join();
    quiet();
    if (!ends[1].started && (cfg[4] & 4)) {
      op(0, {2, 1, 8});
      if (!raw && !ends[2].started) op(0, {2, 2, 9});
      quiet();
    }
    // local closing last
    const int x = !raw && (cfg[4] & 8) ? 2 : 1;
    op(0, {3, x});
    op(0, {3, x});
    quiet();
    if (!raw) op(0, {3, 3 - x});
    quiet();
    for (auto& e : ends) e.c.reset();
    service.Stop();
    if (peer >= 0) close(peer);
  });
}
