// Driver for the pools of I/O threads.
#include "conc.h"
#include "maidsafe/common/asio_service.h"

// ops: 1,id,depth,width  post handler 'id', which posts 'width' further ones, 'depth' levels deep
//      2  stop   3  count   4,id  post a handler which tries to stop the pool and asks for the count
template <typename Service>
static void Run(const std::vector<int>& cfg, const conc::Program& p) {
  std::unique_ptr<Service> s;
  std::string r = "ok";
  try {
    s.reset(new Service(size_t(cfg[0])));
  } catch (const maidsafe::maidsafe_error& e) {
    r = proto::ErrCode(e.code());
  } catch (const std::exception& e) {
    r = std::string("std:") + e.what();
  }
  conc::Ev("new", "new", "", r);
  if (!s) return;
  Service* raw = s.get();
  auto call = [raw](const char* op, std::function<std::string()> f) {
    conc::Ev("call", op);
    std::string r;
    try {
      r = f();
    } catch (const maidsafe::maidsafe_error& e) {
      r = proto::ErrCode(e.code());
    } catch (const std::exception& e) {
      r = std::string("std:") + e.what();
    }
    conc::Ev("ret", op, "", r);
  };
  auto stop = [raw] { raw->Stop(); return std::string("ok"); };
  auto count = [raw] { return std::to_string(raw->ThreadCount()); };
  std::function<void(int, int, int)> post = [&](int id, int depth, int width) {
    conc::Ev("call", "post", std::to_string(id));
    raw->service().post([&, id, depth, width] {
      conc::Ev("begin", "run", std::to_string(id));
      sched::Point();
      if (width < 0) {
        call("stop", stop);
        call("count", count);
      } else if (depth > 0) {
        for (int i = 1; i <= width; ++i) post(id * 10 + i, depth - 1, width);
      }
      sched::Point();
      conc::Ev("done", "run", std::to_string(id));
    });
    conc::Ev("ret", "post", std::to_string(id), "ok");
  };
  conc::Clients c;
  c.Start(p, [&](int, const conc::Op& o) {
    switch (o[0]) {
      case 1: post(o[1], o[2], o[3]); break;
      case 2: call("stop", stop); break;
      case 3: call("count", count); break;
      case 4: post(o[1], 0, -1); break;
    }
  });
  if (cfg[2] & 1) {
    c.Join();
    sched::Quiesce();
    conc::Ev("quiet", "quiet");
  } else {
    c.Join();
  }
  if (cfg[2] & 2) call("stop", stop);
  call("count", count);
  conc::Ev("call", "destroy");
  s.reset();
  conc::Ev("ret", "destroy", "", "ok");
}

int main() {
  // config: number of threads, kind of service, final actions
  return conc::Main([](const std::vector<int>& cfg, const conc::Program& p) {
    if (cfg[1])
      Run<maidsafe::BoostAsioService>(cfg, p);
    else
      Run<maidsafe::AsioService>(cfg, p);
  });
}
