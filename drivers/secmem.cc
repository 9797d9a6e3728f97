// Driver for the allocators of secret memory.
#include "conc.h"
#include <sys/mman.h>
#include <new>
#include <cstring>
#include "maidsafe/common/authentication/detail/safe_allocators.h"
#include "maidsafe/common/authentication/detail/secure_string.h"
namespace ad = maidsafe::authentication::detail;

// Memory of tracked allocations: an arena of our own, at places chosen by the program.
static const size_t kPage = 4096, kPages = 600;
static char* g_arena = nullptr;
#define NOCOV __attribute__((no_sanitize_coverage))
NOCOV static bool In(const void* p) { return g_arena && p >= g_arena && p < g_arena + kPage * kPages; }
static size_t Page(const void* p) { return size_t(static_cast<const char*>(p) - g_arena) / kPage; }
static bool Zero(const char* p, size_t n) {
  for (size_t i = 0; i < n; ++i)
    if (p[i]) return false;
  return true;
}
enum class Mode { kOff, kOne };  // kOne: the next block is tracked
static thread_local Mode t_mode = Mode::kOff;
static thread_local bool t_fail = false, t_locks = true;
static thread_local size_t t_at = 0;      // offset of the next block
static thread_local int t_id = 0;
struct Block {
  size_t at, size;
  int id;
};
static std::vector<Block>& Blocks() {
  static std::vector<Block> b;
  return b;
}
static std::string Num(long n) { return std::to_string(n); }
static void Note(const char* e, const std::string& a, const std::string& r) {
  Mode m = t_mode;
  t_mode = Mode::kOff;
  conc::Ev(e, "", a, r);
  t_mode = m;
}

NOCOV void* operator new(size_t n) {
  if (t_mode == Mode::kOff || sched::Inside()) {
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
  }
  if (t_fail) {
    t_mode = Mode::kOff;
    throw std::bad_alloc();
  }
  sched::NoSwitch guard;
  t_mode = Mode::kOff;
  size_t at = t_at;
  if (at + n > kPage * kPages) abort();
  int id = t_id;
  Blocks().push_back(Block{at, n, id});
  std::string pages = t_locks ? Num(long(at / kPage)) + "," + Num(long((at + n - 1) / kPage)) : "0,-1";
  conc::Ev("new", "", Num(id) + "," + pages);
  t_at = (at + n + 15) / 16 * 16;
  ++t_id;
  return g_arena + at;
}
NOCOV void operator delete(void* p) noexcept {
  if (!In(p)) {
    std::free(p);
    return;
  }
  sched::NoSwitch guard;
  Mode m = t_mode;
  t_mode = Mode::kOff;
  size_t at = size_t(static_cast<char*>(p) - g_arena);
  for (auto it = Blocks().begin(); it != Blocks().end(); ++it)
    if (it->at == at) {
      conc::Ev("delete", "", Num(it->id), Zero(g_arena + at, it->size) ? "zero" : "left");
      std::memset(p, 0, it->size);
      Blocks().erase(it);
      t_mode = m;
      return;
    }
  conc::Ev("delete", "", "-1", "not a block");
  t_mode = m;
}
NOCOV void operator delete(void* p, size_t) noexcept { operator delete(p); }

static std::string Where(const void* p, size_t n) {
  size_t at = size_t(static_cast<const char*>(p) - g_arena);
  return Num(at % kPage ? -1 : long(at / kPage)) + "," + Num(n % kPage ? -1 : long(n / kPage));
}
extern "C" int mlock(const void* p, size_t n) noexcept {
  if (In(p)) Note("lock", Where(p, n), "");
  return 0;
}
extern "C" int munlock(const void* p, size_t n) noexcept {
  if (In(p)) Note("unlock", Where(p, n), Zero(g_arena + Page(p) * kPage, std::min(n, kPage * (kPages - Page(p)))) ? "zero" : "left");
  return 0;
}

// The allocator of secret strings, whose own blocks are tracked.
struct Track : ad::SafeString::allocator_type {
  typedef ad::SafeString::allocator_type base;
  template <typename U>
  struct rebind {
    typedef Track other;
  };
  char* allocate(size_t n, const void* = nullptr) {
    t_mode = Mode::kOne;
    char* p = base::allocate(n);
    t_mode = Mode::kOff;
    return p;
  }
};
struct Wide {
  char c[24];
};
template <typename A>
static void* Alloc(size_t n) {
  return A().allocate(n);
}
template <typename A>
static void Free(void* p, size_t n) {
  A().deallocate(static_cast<typename A::value_type*>(p), n);
}
typedef ad::safe_allocator<char> S1;
typedef ad::safe_allocator<uint32_t> S4;
typedef ad::safe_allocator<Wide> S24;
typedef ad::zero_after_free_allocator<char> Z1;
typedef ad::zero_after_free_allocator<Wide> Z24;
static const size_t kSize[] = {0, 1, 4, 24, 1, 24};
static void* (*const kAlloc[])(size_t) = {nullptr, Alloc<S1>, Alloc<S4>, Alloc<S24>, Alloc<Z1>, Alloc<Z24>};
static void (*const kFree[])(void*, size_t) = {nullptr, Free<S1>, Free<S4>, Free<S24>, Free<Z1>, Free<Z24>};

int main() {
  g_arena = static_cast<char*>(mmap(nullptr, kPage * kPages, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  // Programs: 1 id kind offset count: allocate; 2 id: deallocate; 3 offset count: a string grown by one to count
  // characters; 4: number of locked pages; 5 kind: an allocation which fails; 6 offset count: a secret input
  return conc::Main([](const std::vector<int>&, const conc::Program& p) {
    std::memset(g_arena, 0, kPage * kPages);
    Blocks().clear();
    Blocks().reserve(1000);
    struct Held {
      void* p;
      int kind;
      size_t n;
    };
    std::map<int, Held> held[8];
    conc::Clients c;
    c.Start(p, [&](int t, const conc::Op& o) {
      std::string r = "ok", a;
      switch (o[0]) {
        case 1:
        case 5: {
          int kind = o[0] == 1 ? o[2] : o[1];
          conc::Ev("call", "alloc");
          t_at = o[0] == 1 ? size_t(o[3]) : 0;
          t_id = o[1];
          t_fail = o[0] == 5;
          t_locks = kind <= 3;
          size_t n = o[0] == 1 ? size_t(o[4]) : 1;
          void* q = nullptr;
          try {
            t_mode = Mode::kOne;
            q = kAlloc[kind](n);
          } catch (const std::bad_alloc&) {
            r = "bad_alloc";
          }
          t_mode = Mode::kOff;
          t_fail = false;
          if (q && !In(q)) r = "elsewhere";
          if (q && r == "ok") {
            std::memset(q, 0xaa, n * kSize[kind]);
            sched::NoSwitch guard;
            held[t][o[1]] = Held{q, kind, n};
          }
          conc::Ev("ret", "alloc", "", r);
          return;
        }
        case 2: {
          Held h = held[t][o[1]];
          conc::Ev("call", "free", Num(o[1]));
          kFree[h.kind](h.p, h.n);
          conc::Ev("ret", "free", "", "ok");
          return;
        }
        case 3: {
          conc::Ev("call", "string");
          t_at = size_t(o[1]);
          t_id = 1000 * t + o[1] % 1000 * 100;
          t_locks = true;
          {
            typedef std::basic_string<char, std::char_traits<char>, Track> SafeString;
            SafeString s;
            for (int i = 0; i < o[2]; ++i) s.push_back(char('a' + i % 26));
            conc::Ev("use", "string");
            SafeString u(s), v(s + u);
            conc::Ev("use", "string");
            s.swap(v);
            s.erase(0, 1);
            u = s;
          }
          conc::Ev("ret", "string", "", "ok");
          return;
        }
        case 4: {
          conc::Ev("call", "count");
          int n = ad::LockedPageManager::instance.GetLockedPageCount();
          conc::Ev("ret", "count", Num(n));
          return;
        }
      }
    });
    c.Join();
    conc::Ev("quiet", "quiet");
    conc::Ev("call", "count");
    conc::Ev("ret", "count", Num(ad::LockedPageManager::instance.GetLockedPageCount()));
    for (auto& m : held)  // leave nothing for the next run
      for (auto& x : m) {
        bool there = false;
        for (auto& b : Blocks()) there = there || b.at == size_t(static_cast<char*>(x.second.p) - g_arena);
        if (!there) continue;
        conc::Ev("call", "free", Num(x.first));
        kFree[x.second.kind](x.second.p, x.second.n);
        conc::Ev("ret", "free", "", "ok");
      }
    conc::Ev("quiet", "quiet");
  });
}
