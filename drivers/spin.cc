// Driver for the spin lock: under the scheduler, or (VERIF_FREE) with threads left to themselves and their
// accesses watched by the thread sanitiser.
#ifdef VERIF_FREE
#include <cstdio>
#include <functional>
#include <sstream>
#include <iostream>
#include <thread>
#include <vector>
#include <map>
#include "proto.h"
#else
#include "conc.h"
#endif
#include "maidsafe/common/utils.h"
typedef maidsafe::detail::Spinlock Lock;
typedef std::vector<std::vector<std::vector<int>>> Program;

struct Shared {
  Lock lock[3];
  int n[3] = {0, 0, 0};
  std::vector<std::string> log[3];
};
static void Event(Shared& s, const char* e, int t, int l, const std::string& r) {
#ifdef VERIF_FREE
  // only from inside a section
  s.log[l].push_back(std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(t) + ",\"op\":\"lock\",\"a\":[" + std::to_string(l) + "],\"r\":" + proto::Q(r) + "}");
#else
  (void)t;
  conc::Ev(e, "lock", std::to_string(l), r);
#endif
}
static void Section(Shared& s, int t, const std::vector<int>& o, size_t at) {
  int l = o[at];
#ifndef VERIF_FREE
  Event(s, "call", t, l, "");
#endif
  std::unique_lock<Lock> hold(s.lock[l], std::defer_lock);
  if (o[0] % 2) hold.lock();
  else s.lock[l].lock();
#ifdef VERIF_FREE
  Event(s, "call", t, l, "");
#endif
  int n = s.n[l];
  Event(s, "enter", t, l, std::to_string(n));
  for (int i = o[0] / 2; i > 0; --i) {
    volatile int x = 0;
    x = i % 3 ? 1 : x + 1;
  }
  if (at + 1 < o.size()) Section(s, t, o, at + 1);
  s.n[l] = n + 1;
  Event(s, "leave", t, l, "");
  if (hold) hold.unlock();
  else s.lock[l].unlock();
}

#ifdef VERIF_FREE
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    auto a = proto::Split(line);
    Program p;
    std::istringstream is(a[7]);
    std::string th, o, w;
    while (std::getline(is, th, '/')) {
      p.emplace_back();
      std::istringstream ts(th);
      while (std::getline(ts, o, ';')) {
        if (o == "-") continue;
        p.back().emplace_back();
        std::istringstream os(o);
        while (std::getline(os, w, ',')) p.back().back().push_back(std::stoi(w));
      }
    }
    Shared s;
    std::vector<std::thread> ts;
    for (size_t i = 0; i < p.size(); ++i)
      ts.emplace_back([&, i] { for (auto& op : p[i]) Section(s, int(i) + 1, op, 1); });
    for (auto& t : ts) t.join();
    // one lock at a time: its sections are in the order of its own log
    std::vector<std::string> all;
    for (auto& l : s.log) all.insert(all.end(), l.begin(), l.end());
    std::cout << "{\"end\":\"ok\",\"steps\":0,\"ev\":" << proto::Join(all) << "}" << std::endl;
  }
  return 0;
}
#else
int main() {
  return conc::Main([](const std::vector<int>&, const conc::Program& p) {
    Shared s;
    conc::Clients c;
    c.Start(p, [&](int t, const conc::Op& o) { Section(s, t, o, 1); });
    c.Join();
  });
}
#endif
