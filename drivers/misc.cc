// Driver for the free functions: versions, sizes, times, random numbers, files, options.
#include "proto.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <ctime>
#include "boost/filesystem.hpp"
#include "boost/program_options.hpp"
#include "maidsafe/common/clock.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
namespace fs = boost::filesystem;

// The wall clock, and a limit on the bytes which can be read, are the driver's.
static bool g_fake = false;
static long long g_sec, g_nsec;
static long g_read_left = -1;
static bool g_read_hit = false;
extern "C" int gettimeofday(struct timeval* __restrict t, void* __restrict) noexcept {
  if (g_fake) {
    t->tv_sec = g_sec;
    t->tv_usec = g_nsec / 1000;
    return 0;
  }
  struct timespec s;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  if (g_fake && c == CLOCK_REALTIME) {
    t->tv_sec = g_sec;
    t->tv_nsec = g_nsec;
    return 0;
  }
  return int(syscall(SYS_clock_gettime, c, t));
}
extern "C" time_t time(time_t* p) noexcept {
  struct timeval t;
  gettimeofday(&t, nullptr);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
extern "C" ssize_t read(int fd, void* b, size_t n) {
  if (g_read_left >= 0) {
    if (g_read_left == 0 && n) {
      g_read_hit = true;
      errno = EIO;
      return -1;
    }
    if (n > size_t(g_read_left)) n = size_t(g_read_left);
    ssize_t r = syscall(SYS_read, fd, b, n);
    if (r > 0) g_read_left -= r;
    return r;
  }
  return syscall(SYS_read, fd, b, n);
}

static std::vector<int> Nums(const std::string& t) {
  std::vector<int> s;
  if (t == "-") return s;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ',')) s.push_back(std::stoi(w));
  return s;
}
static std::string S(const std::string& t) {
  std::string s;
  for (int x : Nums(t)) s += char(x);
  return s;
}
template <typename C>
static std::string Bytes(const C& s) {
  std::string out("[");
  for (size_t i = 0; i < s.size(); ++i) out += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return out + "]";
}
static std::vector<maidsafe::byte> FromRuns(const std::string& t) {
  std::vector<maidsafe::byte> v;
  if (t == "-") return v;
  std::istringstream is(t);
  std::string w;
  while (std::getline(is, w, ';')) {
    auto n = Nums(w);
    v.insert(v.end(), n[1], maidsafe::byte(n[0]));
  }
  return v;
}
static std::string ToRuns(const std::vector<maidsafe::byte>& v) {
  std::vector<std::string> o;
  for (size_t i = 0; i < v.size();) {
    size_t j = i;
    while (j < v.size() && v[j] == v[i]) ++j;
    o.push_back("[" + std::to_string(v[i]) + "," + std::to_string(j - i) + "]");
    i = j;
  }
  return proto::Join(o);
}

static fs::path g_root;
static std::string PathOf(const std::string& n) {
  if (n == "full") return "/dev/full";
  if (n == "none") return "";
  return (g_root / n).string();
}
// Files are touched as a user who is not allowed everything.
struct Plain {
  Plain() {
    if (setegid(65534) || seteuid(65534)) throw std::runtime_error("cannot change user");
  }
  ~Plain() {
    if (seteuid(0) || setegid(0)) abort();
  }
};
struct Cap {
  struct rlimit old;
  explicit Cap(long n) {
    getrlimit(RLIMIT_FSIZE, &old);
    if (n >= 0) {
      struct rlimit l = old;
      l.rlim_cur = rlim_t(n);
      setrlimit(RLIMIT_FSIZE, &l);
    }
  }
  ~Cap() { setrlimit(RLIMIT_FSIZE, &old); }
};

int main() {
  signal(SIGXFSZ, SIG_IGN);
  char dir[] = "/tmp/verif_misc_XXXXXX";
  umask(0);
  auto rc = proto::Loop([&](const proto::Args& a) -> std::string {
    const std::string& c = a[0];
    if (c == "reset") {
      if (g_root.empty()) {
        if (!mkdtemp(dir)) throw std::runtime_error("mkdtemp");
        chmod(dir, 0777);
        g_root = dir;
      }
      for (const char* n : {"l", "a", "d/x", "d"}) fs::remove_all(g_root / n);
      return "0";
    }
    if (c == "version") return std::to_string(VersionToInt(S(a[1])));
    if (c == "size") {
      uint64_t n = std::stoull(a[2]);
      return proto::Q(a[1] == "1000" ? BytesToDecimalSiUnits(n) : BytesToBinarySiUnits(n));
    }
    if (c == "date") {
      uint64_t t = std::stoull(a[1]) * 86400000ull + std::stoull(a[2]);
      auto p = TimeStampToPtime(t);
      auto d = p.date();
      auto o = p.time_of_day();
      std::string s = "[" + std::to_string(d.year()) + "," + std::to_string(d.month().as_number()) + "," + std::to_string(d.day().as_number());
      long long ms = o.total_milliseconds();
      if (o.total_microseconds() != ms * 1000) return "\"fraction\"";
      return s + "," + std::to_string(ms / 3600000) + "," + std::to_string(ms / 60000 % 60) + "," + std::to_string(ms / 1000 % 60) + "," + std::to_string(ms % 1000) + "]";
    }
    if (c == "stamp" || c == "now") {
      g_sec = (std::stoll(a[1]) + 10957) * 86400 + std::stoll(a[2]);
      g_nsec = std::stoll(a[3]) * (c == "stamp" ? 1000 : 1);
      g_fake = true;
      uint64_t t = GetTimeStamp();
      long long n = std::chrono::duration_cast<std::chrono::nanoseconds>(Clock::now().time_since_epoch()).count();
      g_fake = false;
      if (c == "stamp") return "[" + std::to_string(t / 86400000) + "," + std::to_string(t % 86400000) + "]";
      return "[" + std::to_string(n / 86400000000000ll) + "," + std::to_string(n / 1000000000 % 86400) + "," + std::to_string(n % 1000000000) + "]";
    }
    if (c == "timet") {
      std::time_t t = std::stoll(a[1]);
      auto p = Clock::from_time_t(t);
      long long n = p.time_since_epoch().count();
      long long back = Clock::to_time_t(p + std::chrono::nanoseconds(std::stoll(a[2])));
      if (n % 1000000000) return "\"fraction\"";
      return "[" + std::to_string(n / 1000000000) + "," + std::to_string(back) + "]";
    }
    if (c == "prng") {
      auto s = Nums(a[1]);
      small_prng::RandomContext x;
      small_prng::Initialise(&x, uint32_t(s[0]) << 16 | uint32_t(s[1]));
      std::vector<std::string> o;
      for (int i = std::stoi(a[2]); i; --i) {
        uint32_t v = small_prng::RandomValue(&x);
        o.push_back("[" + std::to_string(v >> 16) + "," + std::to_string(v & 65535) + "]");
      }
      return proto::Join(o);
    }
    if (c == "xor") {
      std::string x = S(a[1]), y = S(a[2]);
      std::string r = proto::Try([&] { return "{\"ok\":" + Bytes(x ^ y) + "}"; });
      std::vector<maidsafe::byte> v(x.begin(), x.end()), w(y.begin(), y.end());
      std::string q = proto::Try([&] { return "{\"ok\":" + Bytes(v ^ w) + "}"; });
      return r == q ? r : "\"" "differs\"";
    }
    if (c == "write") {
      std::string p = PathOf(a[1]);
      auto v = FromRuns(a[2]);
      bool ok;
      {
        Plain u;
        Cap k(std::stol(a[3]));
        ok = WriteFile(p, v);
      }
      return ok ? "true" : "false";
    }
    if (c == "read") {
      std::string p = PathOf(a[1]);
      Plain u;
      g_read_hit = false;
      g_read_left = std::stol(a[2]);
      long cap = g_read_left;
      auto r = ReadFile(p);
      g_read_left = -1;
      if (!r) return "{\"err\":" + proto::Q(proto::ErrCode(r.error().code())) + "}";
      // read by other means than read(2): the limit had no effect
      if (cap >= 0 && long(r->size()) > cap && !g_read_hit && fs::file_size(p) == r->size()) return "{\"err\":\"filesystem_io_error\"}";
      return "{\"ok\":" + ToRuns(*r) + "}";
    }
    if (c == "mkdir") {
      Plain u;
      boost::system::error_code ec;
      fs::create_directory(g_root / "d", ec);
      return "0";
    }
    if (c == "remove") {
      fs::remove_all(g_root / a[1]);
      return "0";
    }
    if (c == "link") return symlink((g_root / a[1]).c_str(), (g_root / "l").c_str()) ? "1" : "0";
    if (c == "socket") return mknod((g_root / a[1]).c_str(), S_IFSOCK | 0600, 0) ? "1" : "0";
    if (c == "lock") {
      chmod((g_root / a[1]).c_str(), 0);
      return "0";
    }
    if (c == "option") {
      boost::program_options::variables_map m;
      if (a[1] != "absent") m.insert(std::make_pair(std::string("opt"), boost::program_options::variable_value(boost::any(PathOf(a[1])), false)));
      m.insert(std::make_pair(std::string("other"), boost::program_options::variable_value(boost::any((g_root / "a").string()), false)));
      fs::path r;
      {
        Plain u;
        r = GetPathFromProgramOptions("opt", m, a[2] == "1", a[3] == "1");
      }
      if (r.empty()) return "\"none\"";
      for (const char* n : {"a", "d", "d/x", "l"})
        if (r == g_root / n) return proto::Q(n);
      return proto::Q(r.string());
    }
    return "\"?\"";
  });
  if (!g_root.empty()) fs::remove_all(g_root);
  return rc;
}
