// Shared by the drivers of concurrent modules: event log, one run per input line.
#ifndef VERIF_CONC_H_
#define VERIF_CONC_H_
#include <thread>
#include "proto.h"
#include "vsched.h"

namespace conc {

inline std::vector<std::string>& Log() {
  static std::vector<std::string> l;
  return l;
}
inline int& Client() {  // number of the program thread, 0: main, -1: a thread of the code under test
  static thread_local int c = -1;
  return c;
}
inline int Who() { return Client() >= 0 ? Client() : 100 + sched::Self(); }
// a: JSON list of numbers without the brackets; r: text
inline void Ev(const char* e, const std::string& op, const std::string& a = "", const std::string& r = "") {
  sched::NoSwitch guard;
  Log().push_back(std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(Who()) + ",\"op\":\"" + op +
                  "\",\"a\":[" + a + "],\"r\":" + proto::Q(r) + "}");
}
inline void Emit(const std::string& how) {
  std::string s = "{\"end\":" + proto::Q(how) + ",\"steps\":" + std::to_string(sched::Steps()) + ",\"ev\":" +
                  proto::Join(Log()) + "}\n";
  size_t off = 0;
  while (off < s.size()) {
    ssize_t n = ::write(1, s.data() + off, s.size() - off);
    if (n <= 0) break;
    off += size_t(n);
  }
}

using Op = std::vector<int>;                   // opcode and arguments
using Program = std::vector<std::vector<Op>>;  // per thread

inline std::vector<int> Ints(const std::string& t, char sep) {
  std::vector<int> v;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, sep)) v.push_back(std::stoi(w));
  return v;
}
// thread/thread/..; thread = op;op;..; op = n,n,..
inline Program Parse(const std::string& text) {
  Program p;
  std::istringstream is(text);
  std::string th, o;
  while (std::getline(is, th, '/')) {
    p.emplace_back();
    std::istringstream ts(th);
    while (std::getline(ts, o, ';'))
      if (o != "-") p.back().push_back(Ints(o, ','));
  }
  return p;
}

// Lines: "run <seed> <pct> <p_sync> <p_block> <spurious> <config ints ,> <program>".  The body runs under
// the scheduler; it must leave no thread behind.
inline int Main(std::function<void(const std::vector<int>&, const Program&)> body) {
  std::string line;
  while (std::getline(std::cin, line)) {
    auto a = proto::Split(line);
    if (a.size() < 8) continue;
    sched::Policy p;
    p.seed = std::stoull(a[1]);
    p.pct = std::stoi(a[2]);
    p.p_sync = std::stoi(a[3]);
    p.p_block = std::stoi(a[4]);
    p.spurious = std::stoi(a[5]);
    auto cfg = Ints(a[6], ',');
    auto prog = Parse(a[7]);
    Log().clear();
    Client() = 0;
    sched::Begin(p, [](const std::string& how) {
      Emit(how);
      _exit(3);
    });
    std::string how = "ok";
    try {
      body(cfg, prog);
    } catch (const std::exception& e) {
      how = std::string("exception:") + e.what();
    } catch (...) {
      how = "exception";
    }
    if (sched::Alive() && how == "ok") how = "threads left";
    sched::End();
    Emit(how);
    if (how != "ok") return 3;
  }
  return 0;
}

// Runs each thread of the program; join them with Join.
struct Clients {
  std::vector<std::thread> t;
  template <typename F>
  void Start(const Program& p, F f) {
    for (size_t i = 0; i < p.size(); ++i)
      t.emplace_back([&p, f, i] {
        Client() = int(i) + 1;
        for (const auto& o : p[i]) f(int(i) + 1, o);
      });
  }
  void Join() {
    for (auto& x : t) x.join();
    t.clear();
  }
};
}  // namespace conc
#endif
