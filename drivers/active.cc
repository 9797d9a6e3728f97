// Driver for the active object.
#include "conc.h"
#include "maidsafe/common/active.h"

static std::unique_ptr<maidsafe::Active> g_obj;
static maidsafe::Active* g_raw;

// op: 1,id,depth,width  send functor 'id', which sends 'width' further functors, 'depth' levels deep
static void Send(int id, int depth, int width) {
  conc::Ev("call", "send", std::to_string(id));
  g_raw->Send([=] {
    conc::Ev("begin", "run", std::to_string(id));
    sched::Point();
    if (depth > 0)
      for (int i = 1; i <= width; ++i) Send(id * 10 + i, depth - 1, width);
    sched::Point();
    conc::Ev("done", "run", std::to_string(id));
  });
  conc::Ev("ret", "send", std::to_string(id));
}

int main() {
  // config: whether to wait for all threads to rest before destroying
  return conc::Main([](const std::vector<int>& cfg, const conc::Program& p) {
    g_obj.reset(new maidsafe::Active);
    g_raw = g_obj.get();
    conc::Clients c;
    c.Start(p, [](int, const conc::Op& o) { Send(o[1], o[2], o[3]); });
    if (cfg[0] & 1) {
      sched::Quiesce();
      conc::Ev("quiet", "quiet");
    }
    c.Join();
    if (cfg[0] & 2) {
      sched::Quiesce();
      conc::Ev("quiet", "quiet");
    }
    conc::Ev("call", "destroy");
    g_obj.reset();
    conc::Ev("ret", "destroy");
  });
}
