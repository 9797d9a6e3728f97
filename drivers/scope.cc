// Driver for scope guards: runs a program of nested scopes.
#include "proto.h"
#include "maidsafe/common/on_scope_exit.h"
using namespace maidsafe;

struct Step {
  std::string what;
  int k;
};
struct Thrown {};
// An action which is copied at most 'left' times.
struct Boom {
  std::vector<std::string>* log;
  int k, left;
  Boom(std::vector<std::string>* l, int n, int c) : log(l), k(n), left(c) {}
  Boom(const Boom& o) : log(o.log), k(o.k), left(o.left - 1) {
    if (left < 0) throw Thrown();
  }
  Boom(Boom&& o) : log(o.log), k(o.k), left(o.left) {}
  void operator()() const { log->push_back(std::to_string(k)); }
};
struct Machine {
  std::vector<Step> prog;
  size_t at = 0;
  int x = 0;
  std::string y = "0";
  std::vector<std::string> log;
  on_scope_exit::ExitAction Make(int k) {
    if (k == 0) return nullptr;
    if (k == 11) return on_scope_exit::RevertValue(x);
    if (k == 12) return on_scope_exit::RevertValue(y);
    return [this, k] { log.push_back(std::to_string(k)); };
  }
  // runs steps until the scope is left; 'guard' is the innermost one
  void Scope(on_scope_exit* guard, bool top) {
    while (at < prog.size()) {
      Step s = prog[at++];
      if (s.what == "open") {
        on_scope_exit inner(Make(s.k));
        Scope(&inner, false);
      } else if (s.what == "fn") {
        auto f = [this, &s] { if (s.k) log.push_back(std::to_string(s.k)); };
        on_scope_exit inner(f);
        Scope(&inner, false);
      } else if (s.what == "fail") {  // whether or not it can be stored, it runs once
        Boom b(&log, s.k, s.k % 2);
        try {
          on_scope_exit inner(std::move(b));
        } catch (const Thrown&) {
        }
      } else if (s.what == "try") {
        try {
          Scope(guard, false);
        } catch (const Thrown&) {
          log.push_back("21");
        }
      } else if (s.what == "set") {
        if (guard && s.k) guard->SetAction(Make(s.k));
        else if (guard) guard->SetAction();
      } else if (s.what == "release") {
        if (guard) guard->Release();
      } else if (s.what == "x") {
        on_scope_exit::SetValue(x, s.k);
      } else if (s.what == "y") {
        on_scope_exit::SetValue(y, std::to_string(s.k));
      } else if (s.what == "leave") {
        if (!top) return;
      } else if (s.what == "throw") {
        throw Thrown();
      }
    }
  }
};

int main() {
  return proto::Loop([&](const proto::Args& a) -> std::string {
    if (a[0] == "reset") return "0";
    Machine m;
    std::istringstream is(a[1] == "-" ? "" : a[1]);
    std::string w;
    while (std::getline(is, w, ';')) {
      size_t c = w.find(',');
      m.prog.push_back(Step{w.substr(0, c), std::stoi(w.substr(c + 1))});
    }
    try {
      m.Scope(nullptr, true);
    } catch (const Thrown&) {
      m.log.push_back("20");
    }
    return "{\"x\":" + std::to_string(m.x) + ",\"y\":" + m.y + ",\"log\":" + proto::Join(m.log) + "}";
  });
}
