// Driver for random strings and numbers.
#include "proto.h"
#include <sys/wait.h>
#include <unistd.h>
#include <set>
#include "maidsafe/common/utils.h"
using namespace maidsafe;

template <typename C>
static std::string Bytes(const C& c) {
  return std::string(c.begin(), c.end());
}
static std::string Four(uint32_t v) {
  std::string s;
  for (int i = 0; i < 4; ++i) s += char(v >> (8 * i));
  return s;
}
static std::string Show(const std::string& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}
static std::string Draw(int kind, uint32_t a, int b) {
  if (b < 0) switch (kind) {
      case 1: return RandomString(size_t(a));
      case 2: return Bytes(RandomBytes(size_t(a)));
      case 3: return RandomAlphaNumericString(size_t(a));
      case 4: return Bytes(RandomAlphaNumericBytes(size_t(a)));
    }
  switch (kind) {
    case 1: return RandomString(a, uint32_t(b));
    case 2: return Bytes(RandomBytes(a, uint32_t(b)));
    case 3: return RandomAlphaNumericString(a, uint32_t(b));
    case 4: return Bytes(RandomAlphaNumericBytes(a, uint32_t(b)));
    case 5: return Four(uint32_t(RandomInt32()));
    default: return Four(RandomUint32());
  }
}
template <typename C>
static std::string List(const C& c) {
  std::vector<std::string> v;
  for (auto& x : c) v.push_back(std::to_string(x));
  return proto::Join(v);
}

int main() {
  int from[2];
  // children start before anything is drawn here
  if (pipe(from)) return 1;
  std::vector<std::string> fresh;
  for (int i = 0; i < 3; ++i) {
    pid_t pid = fork();
    if (pid == 0) {
      alarm(20);
      std::string s = i == 0 ? RandomString(16) : i == 1 ? Bytes(RandomBytes(16)) : Bytes(RandomString(16));
      _exit(write(from[1], s.data(), 16) == 16 && s.size() == 16 ? 0 : 1);
    }
    char b[16];
    int status = 1;
    waitpid(pid, &status, 0);
    if (status == 0 && read(from[0], b, 16) == 16) fresh.emplace_back(b, 16);
  }
  return proto::Loop([&](const proto::Args& a) -> std::string {
    auto n = [&](size_t i) { return std::stol(a[i]); };
    if (a[0] == "seed") {
      detail::set_random_number_generator_seed(uint32_t(n(1)));
      return std::to_string(detail::random_number_generator_seed());
    }
    if (a[0] == "get") return Show(Draw(int(n(1)), uint32_t(n(2)), int(n(3))));
    if (a[0] == "fresh") return Show(size_t(n(1)) < fresh.size() ? fresh[size_t(n(1))] : "");
    if (a[0] == "many") {
      std::set<size_t> sizes;
      std::set<int> bytes;
      for (long i = 0; i < n(4); ++i) {
        std::string s = Draw(int(n(1)), uint32_t(n(2)), int(n(3)));
        sizes.insert(s.size());
        for (unsigned char c : s) bytes.insert(c);
      }
      return "[" + List(sizes) + "," + List(bytes) + "]";
    }
    return "0";
  });
}
