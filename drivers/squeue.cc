// Driver for the thread-safe queue.
#include "conc.h"
#include "maidsafe/common/safe_queue.h"

// A value which is torn or lost if copied while another thread changes it.
struct Item {
  int a = -1;
  std::string s;
  int b = -1;
  Item() {}
  explicit Item(int v) : a(v), s(40, char('a' + v % 26)), b(v) {}
  std::string Text() const {
    if (a != b || (a >= 0 && s != std::string(40, char('a' + a % 26)))) return "torn";
    return std::to_string(a);
  }
};

static void Add(int& n, int d) {
  sched::NoSwitch guard;
  n += d;
}

int main() {
  // config: number of elements main pushes at the end per blocked pop
  return conc::Main([](const std::vector<int>&, const conc::Program& p) {
    std::unique_ptr<SafeQueue<Item>> q(new SafeQueue<Item>);
    conc::Clients c;
    int blocked = 0;
    c.Start(p, [&](int, const conc::Op& o) {
      std::string r = "ok";
      static const char* names[] = {"", "push", "try", "wait", "size", "empty"};
      const char* n = names[o[0]];
      conc::Ev("call", n, o[0] == 1 ? std::to_string(o[1]) : "");
      Item it(99);
      switch (o[0]) {
        case 1: q->Push(Item(o[1])); break;
        case 2: {
          bool ok = q->TryPop(it);
          r = it.Text();
          if (!ok) r = r == "99" ? "none" : "none but changed to " + r;
          break;
        }
        case 3: Add(blocked, 1); q->WaitAndPop(it); Add(blocked, -1); r = it.Text(); break;
        case 4: r = std::to_string(q->Size()); break;
        case 5: r = q->Empty() ? "1" : "0"; break;
      }
      conc::Ev("ret", n, "", r);
    });
    for (int round = 0; round < 100; ++round) {
      sched::Quiesce();
      conc::Ev("quiet", "quiet");
      if (!blocked) break;
      for (int i = blocked; i > 0; --i) {
        conc::Ev("call", "push", std::to_string(50 + i));
        q->Push(Item(50 + i));
        conc::Ev("ret", "push", "", "ok");
      }
    }
    c.Join();   // a deadlock if any is still blocked
  });
}
