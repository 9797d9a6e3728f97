// Driver for listeners: raw sockets connect to them while threads stop them.
#include <sched.h>
#include "net.h"
#include "conc.h"
#include "asio/io_service.hpp"
#include "maidsafe/common/asio_service.h"
#include "maidsafe/common/tcp/connection.h"
#include "maidsafe/common/tcp/listener.h"

using maidsafe::tcp::ConnectionPtr;
using maidsafe::tcp::Listener;
using maidsafe::tcp::ListenerPtr;
using maidsafe::tcp::Message;

static int g_faults = 0;
extern "C" int accept(int fd, struct sockaddr* a, socklen_t* n) {
  static auto real = reinterpret_cast<int (*)(int, struct sockaddr*, socklen_t*)>(dlsym(RTLD_NEXT, "accept"));
  if (g_faults > 0 && sched::Active()) {  // no descriptor to be had this time
    sched::NoSwitch g;
    if (sched::Rand(2)) {
      --g_faults;
      errno = EMFILE;
      return -1;
    }
  }
  return real(fd, a, n);
}

struct Lis {
  ListenerPtr l;
  int port = 0;
  bool stop = false;
  std::set<int> conn, rep;
};

int main() {
  net::Isolate();
  // config: threads, own strands, connection whose callback stops its listener, failing accepts, port of listener 1,
  // port asked for by listener 2 (0: none), busy ports above (bits), end (1: the pool stops at once)
  return conc::Main([](const std::vector<int>& cfg, const conc::Program& p) {
    maidsafe::AsioService service{size_t(cfg[0])};
    asio::io_service::strand s1(service.service()), s2(service.service());
    Lis lis[3];
    std::map<std::pair<int, int>, int> id_of;  // by listener (two connections may have the same local port) and local port
    std::map<int, int> sock;      // raw sockets
    std::vector<ConnectionPtr> kept;
    std::vector<int> others;
    g_faults = 0;
    auto busy = [&](int port) {
      if (port > 65535) return;
      int s = net::Listen(port);
      if (s < 0) return;
      others.push_back(s);
      conc::Ev("busy", "busy", std::to_string(port));
    };
    auto stop = [&](int l) {
      ListenerPtr ptr = lis[l].l;
      if (!ptr) return;
      conc::Ev("call", "stop", std::to_string(l));
      lis[l].stop = true;
      ptr->StopListening();
      conc::Ev("ret", "stop");
    };
    auto connect = [&](int l, int id) {
      if (!lis[l].port) return;
      sched::NoSwitch g;
      int s = net::Connect(lis[l].port);
      if (s >= 0) {
        sock[id] = s;
        id_of[{l, net::Port(s)}] = id;
        lis[l].conn.insert(id);
      }
      conc::Ev("connect", "connect", std::to_string(l) + "," + std::to_string(id), s >= 0 ? "ok" : "refused");
    };
    auto listen = [&](int l, int desired) {
      std::string r = "ok";
      int port = 0;
      try {
        lis[l].l = Listener::MakeShared(l == 2 && cfg[1] ? s2 : s1, [&, l](ConnectionPtr c) {
          int id = -1;
          {
            sched::NoSwitch g;
            std::error_code ec;
            auto e = c->Socket().remote_endpoint(ec);
            auto it = id_of.find({l, int(e.port())});
            if (!ec && it != id_of.end()) id = it->second;
          }
          std::string a = std::to_string(l) + "," + std::to_string(id);
          conc::Ev("begin", "new", a);
          sched::Point();
          if (id == cfg[2]) stop(l);
          c->Send(Message(1, (unsigned char)id));
          c->Start([](Message) {}, [] {});
          sched::NoSwitch g;
          kept.push_back(c);
          lis[l].rep.insert(id);
          conc::Ev("done", "new", a);
        }, maidsafe::tcp::Port(desired));
        port = lis[l].port = lis[l].l->ListeningPort();
      } catch (const maidsafe::maidsafe_error& e) {
        r = proto::ErrCode(e.code());
      }
      conc::Ev("listen", "listen", std::to_string(l) + "," + std::to_string(desired) + "," + std::to_string(port), r);
    };
    std::set<int> hello;
    auto settled = [&] {
      sched::NoSwitch g;
      for (auto& s : sock) {
        char b[8];
        ssize_t n = recv(s.second, b, 8, MSG_DONTWAIT);
        if (n == 5 && !memcmp(b, "\0\0\0\1", 4) && (unsigned char)b[4] == s.first) hello.insert(s.first);
      }
      bool all = true;
      for (int l = 1; l <= 2; ++l) {
        if (!lis[l].stop) all = all && lis[l].conn == lis[l].rep;
        for (int i : lis[l].rep) all = all && hello.count(i);
      }
      return all;
    };
    auto quiet = [&] {
      for (int i = 0; i < 1500; ++i) {
        sched::Quiesce();
        if (settled()) break;
        struct timespec ts = {0, 2000000};
        syscall(SYS_nanosleep, &ts, nullptr);
      }
      conc::Ev("quiet", "quiet");
      std::string ids;
      for (int i : hello) ids += (ids.empty() ? "" : ",") + std::to_string(i);
      conc::Ev("live", "live", ids);
    };
    for (int i = 0; i < 12; ++i)
      if (cfg[6] >> i & 1) busy(cfg[4] + i);
    listen(1, cfg[4]);
    if (cfg[5]) listen(2, cfg[5]);
    g_faults = cfg[3];
    conc::Clients c;
    c.Start(p, [&](int, const conc::Op& o) {
      switch (o[0]) {
        case 1: connect(o[1], o[2]); break;
        case 2: stop(o[1]); break;
        case 3: {
          ListenerPtr gone;
          {
            sched::NoSwitch g;
            if (lis[o[1]].stop) gone.swap(lis[o[1]].l);
          }
          break;
        }
        case 4: sched::Point(); break;
      }
    });
    c.Join();
    quiet();
    for (int l = 1; l <= 2; ++l) connect(l, 90 + l);
    quiet();
    if (cfg[7] != 1) {
      stop(1);
      stop(2);
      if (cfg[7] == 2) {
        lis[1].l.reset();
        lis[2].l.reset();
      }
      quiet();
      for (int l = 1; l <= 2; ++l) connect(l, 92 + l);
      for (int l = 1; l <= 2; ++l)
        if (lis[l].port) {
          int s = net::Listen(lis[l].port);
          conc::Ev("rebind", "rebind", std::to_string(lis[l].port), s >= 0 ? "ok" : "busy");
          if (s >= 0) close(s);
        }
      stop(1);
      quiet();
    } else {
      stop(1);
      stop(2);
    }
    for (auto& k : kept) k->Close();
    sched::Quiesce();
    kept.clear();
    for (auto& s : sock) net::Reset(s.second);
    for (int s : others) close(s);
    service.Stop();
    for (auto& l : lis) l.l.reset();
  });
}
