// Driver for random values drawn by several threads.
#include "conc.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;

static std::string Hex(const std::string& s) { return proto::Hex(s); }
static std::string Draw(int kind, size_t n) {
  switch (kind) {
    case 1: return Hex(RandomString(n));
    case 2: {
      auto b = RandomBytes(n);
      return Hex(std::string(b.begin(), b.end()));
    }
    case 3: return Hex(RandomAlphaNumericString(n));
    case 4: {
      auto b = RandomAlphaNumericBytes(n);
      return Hex(std::string(b.begin(), b.end()));
    }
    case 5: return std::to_string(RandomInt32());
    default: return std::to_string(RandomUint32());
  }
}

int main() {
  for (int k = 1; k <= 6; ++k) Draw(k, 1);
  // Configuration: seed, kind, size.  Programs: draws.
  return conc::Main([](const std::vector<int>& cfg, const conc::Program& p) {
    auto n = size_t(cfg[2]);
    size_t calls = 0;
    for (auto& t : p) calls += t.size();
    detail::set_random_number_generator_seed(uint32_t(cfg[0]));
    for (size_t i = 0; i < calls; ++i) conc::Ev("ref", "", "", Draw(cfg[1], n));
    detail::set_random_number_generator_seed(uint32_t(cfg[0]));
    conc::Clients c;
    c.Start(p, [&](int, const conc::Op&) {
      conc::Ev("call", "");
      std::string r = Draw(cfg[1], n);
      conc::Ev("ret", "", "", r);
    });
    c.Join();
  });
}
