// See vsched.h.  Compiled without coverage instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <map>
#include <vector>

namespace sched {
namespace {

enum State { kReady, kMutex, kCond, kJoin, kFutex, kPoll, kQuiesce, kDone };
struct Thr {
  bool joined = false;
  int id;
  State state;
  const void* on;
  std::atomic<int> go;
  int prio;
  bool signalled, probe, timed;
  pthread_t handle;
  void* (*fn)(void*);
  void* arg;
};

bool g_active = false;
std::vector<Thr*> g_thr;
thread_local Thr* t_self __attribute__((tls_model("initial-exec"))) = nullptr;
thread_local int t_inside __attribute__((tls_model("initial-exec"))) = 0;
thread_local int t_nopreempt __attribute__((tls_model("initial-exec"))) = 0;
Policy g_pol;
uint64_t g_rng, g_steps;
std::vector<uint64_t> g_change;
int g_low;
std::function<void(const std::string&)> g_fail;

uint64_t Next() {
  g_rng ^= g_rng << 13;
  g_rng ^= g_rng >> 7;
  g_rng ^= g_rng << 17;
  return g_rng;
}

template <typename F>
F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name) static auto real = Real<decltype(&name)>(#name)

void FutexWait(std::atomic<int>* w, int v) { syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void FutexWake(std::atomic<int>* w) { syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void Fail(const char* what) {
  g_active = false;
  auto f = g_fail;
  f(what);
  _exit(4);
}

void WaitGo(Thr* t) {
  while (!t->go.load(std::memory_order_acquire)) FutexWait(&t->go, 0);
  t->go.store(0, std::memory_order_relaxed);
}
void Grant(Thr* t) {
  t->go.store(1, std::memory_order_release);
  FutexWake(&t->go);
}

// The next thread to run; the caller has set its own state.
Thr* Choose(Thr* self) {
  for (int idle = 0;;) {
    std::vector<Thr*> ready;
    for (Thr* t : g_thr)
      if (t->state == kReady) ready.push_back(t);
    if (!ready.empty()) {
      if (g_pol.pct) {
        Thr* b = ready[0];
        for (Thr* t : ready)
          if (t->prio > b->prio) b = t;
        return b;
      }
      return ready[Next() % ready.size()];
    }
    // nothing is ready: those waiting for I/O look again
    bool polling = false, unprobed = false;
    for (Thr* t : g_thr)
      if (t->state == kPoll) {
        polling = true;
        if (!t->probe) unprobed = true;
      }
    if (polling && unprobed) {
      for (Thr* t : g_thr)
        if (t->state == kPoll && !t->probe) {
          t->probe = true;
          t->state = kReady;
        }
      continue;
    }
    bool quiesce = false;
    for (Thr* t : g_thr) quiesce = quiesce || t->state == kQuiesce;
    if (polling && idle < (quiesce ? 4 : 10000)) {
      ++idle;
      struct timespec ts = {0, 300000};
      syscall(SYS_nanosleep, &ts, nullptr);
      for (Thr* t : g_thr)
        if (t->state == kPoll) {
          struct pollfd pf = {static_cast<int>(reinterpret_cast<intptr_t>(t->on)), POLLIN, 0};
          if (syscall(SYS_poll, &pf, 1, 0) > 0) t->state = kReady;
        }
      continue;
    }
    bool timed = false;
    for (Thr* t : g_thr)
      if (t->state == kCond && t->timed) {  // time passes when nothing else can happen
        t->state = kReady;
        timed = true;
      }
    if (timed) continue;
    for (Thr* t : g_thr)
      if (t->state == kQuiesce) {
        t->state = kReady;
        timed = true;
      }
    if (timed) continue;
    Fail("deadlock");
  }
}

void Switch(Thr* self) {  // self's state is set; returns when self is scheduled again
  ++t_inside;
  Thr* n = Choose(self);
  if (n != self) Grant(n);
  --t_inside;
  if (n != self && self->state != kDone) WaitGo(self);
}

void Progress() {
  for (Thr* t : g_thr) t->probe = false;
}

void Step() {
  if (++g_steps > g_pol.max_steps) Fail("livelock");
  if (g_pol.pct)
    for (auto& c : g_change)
      if (c == g_steps) t_self->prio = --g_low;
}

void MaybeSwitch(Thr* self, bool yield) {
  if (t_nopreempt) return;
  Step();
  if (g_pol.pct) {
    if (yield) self->prio = --g_low;
    Switch(self);
  } else if (yield || int(Next() % 1000) < g_pol.p_sync) {
    if (yield) {
      // somebody else if possible
      self->state = kPoll;
      bool other = false;
      for (Thr* t : g_thr) other = other || t->state == kReady;
      if (other) {
        Thr* n = Choose(self);
        self->state = kReady;
        Grant(n);
        WaitGo(self);
        return;
      }
      self->state = kReady;
    }
    Switch(self);
  }
}

bool Controlled() { return g_active && t_self; }

void Wake(State s, const void* on) {
  for (Thr* t : g_thr)
    if (t->state == s && t->on == on) t->state = kReady;
}

void Block(State s, const void* on) {
  t_self->state = s;
  t_self->on = on;
  int keep = t_nopreempt;
  t_nopreempt = 0;
  Step();
  Switch(t_self);
  t_nopreempt = keep;
}

void LockMutex(pthread_mutex_t* m) {
  static auto trylock = Real<decltype(&pthread_mutex_trylock)>("pthread_mutex_trylock");
  while (trylock(m) == EBUSY) Block(kMutex, m);
}
void UnlockMutex(pthread_mutex_t* m) {
  static auto unlock = Real<decltype(&pthread_mutex_unlock)>("pthread_mutex_unlock");
  unlock(m);
  Wake(kMutex, m);
}

int CondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  Progress();
  Thr* self = t_self;
  self->signalled = false;
  self->timed = timed;
  UnlockMutex(m);
  if (int(Next() % 1000) < g_pol.spurious) {
    Step();
    Switch(self);
  } else {
    Block(kCond, c);
  }
  self->timed = false;
  bool got = self->signalled;
  LockMutex(m);
  return timed && !got ? ETIMEDOUT : 0;
}

void* Trampoline(void* p) {
  Thr* t = static_cast<Thr*>(p);
  t_self = t;
  WaitGo(t);
  void* r = t->fn(t->arg);
  if (Controlled()) {
    Progress();
    t->state = kDone;
    Wake(kJoin, t);
    Switch(t);
  }
  t_self = nullptr;
  return r;
}

void OnSignal(int s) {
  alarm(2);   // the handler may hang if the heap is corrupt
  if (g_active && g_fail) {
    g_active = false;
    g_fail("crash:" + std::to_string(s));
  }
  _exit(5);
}

}  // namespace

void Begin(const Policy& p, std::function<void(const std::string&)> on_fail) {
  static bool once = false;
  if (!once) {
    once = true;
    static char stack[65536];
    stack_t ss = {};
    ss.ss_sp = stack;
    ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_handler = OnSignal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  }
  g_pol = p;
  g_rng = p.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
  for (int i = 0; i < 8; ++i) Next();
  g_steps = 0;
  g_low = 0;
  g_change.clear();
  // change points are spread over a range of lengths, as the length of the run is not known
  if (p.pct)
    for (int i = 0; i < p.pct; ++i) g_change.push_back(1 + Next() % (1ull << (4 + Next() % 10)));
  g_fail = std::move(on_fail);
  for (Thr* t : g_thr) delete t;
  g_thr.clear();
  Thr* t = new Thr();
  t->id = 0;
  t->state = kReady;
  t->prio = 1 + int(Next() % 1000);
  g_thr.push_back(t);
  t_self = t;
  g_active = true;
}

void End() {
  g_active = false;
  t_self = nullptr;
}
bool Active() { return Controlled(); }
int Self() { return t_self ? t_self->id : -1; }
uint64_t Rand(uint64_t n) { return Next() % n; }
uint64_t Steps() { return g_steps; }
bool Inside() { return t_inside > 0; }
NoSwitch::NoSwitch() { ++t_nopreempt; }
NoSwitch::~NoSwitch() { --t_nopreempt; }
void Point() {
  if (Controlled()) MaybeSwitch(t_self, false);
}
void Quiesce() {
  if (!Controlled()) return;
  Block(kQuiesce, nullptr);
}
int Alive() {
  int n = 0;
  for (Thr* t : g_thr)
    if (t != t_self && t->state != kDone) ++n;
  return n;
}

}  // namespace sched

using namespace sched;

extern "C" {

void __sanitizer_cov_trace_pc() {
  if (!g_active || !t_self || t_nopreempt) return;
  if (++g_steps > g_pol.max_steps) Fail("livelock");
  if (g_pol.pct) {
    if (g_steps % 100000 == 0) {  // nobody spins for ever
      t_self->prio = --g_low;
      Switch(t_self);
      return;
    }
    for (auto c : g_change)
      if (c == g_steps) {
        t_self->prio = --g_low;
        Switch(t_self);
        return;
      }
    return;
  }
  if (int(Next() % 10000) < g_pol.p_block) Switch(t_self);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(pthread_mutex_lock);
  if (!Controlled()) return real(m);
  MaybeSwitch(t_self, false);
  LockMutex(m);
  Progress();
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  REAL(pthread_mutex_trylock);
  if (Controlled()) MaybeSwitch(t_self, false);
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(pthread_mutex_unlock);
  if (!Controlled()) return real(m);
  UnlockMutex(m);
  MaybeSwitch(t_self, false);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(pthread_cond_wait);
  if (!Controlled()) return real(c, m);
  return CondWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  REAL(pthread_cond_timedwait);
  if (!Controlled()) return real(c, m, ts);
  return CondWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  REAL(pthread_cond_clockwait);
  if (!Controlled()) return real(c, m, k, ts);
  return CondWait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
  REAL(pthread_cond_signal);
  if (!Controlled()) return real(c);
  MaybeSwitch(t_self, false);
  Progress();
  std::vector<Thr*> w;
  for (Thr* t : g_thr)
    if (t->state == kCond && t->on == c) w.push_back(t);
  if (!w.empty()) {
    Thr* t = w[Next() % w.size()];
    t->signalled = true;
    t->state = kReady;
  }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  REAL(pthread_cond_broadcast);
  if (!Controlled()) return real(c);
  MaybeSwitch(t_self, false);
  Progress();
  for (Thr* t : g_thr)
    if (t->state == kCond && t->on == c) {
      t->signalled = true;
      t->state = kReady;
    }
  return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  REAL(pthread_create);
  if (!Controlled()) return real(h, a, fn, arg);
  Thr* t = new Thr();
  t->id = int(g_thr.size());
  t->state = kReady;
  t->prio = 1 + int(Next() % 1000);
  t->fn = fn;
  t->arg = arg;
  g_thr.push_back(t);
  int r = real(h, a, Trampoline, t);
  if (r) {
    g_thr.pop_back();
    delete t;
    return r;
  }
  t->handle = *h;
  Progress();
  MaybeSwitch(t_self, false);
  return 0;
}
int pthread_join(pthread_t h, void** ret) {
  REAL(pthread_join);
  if (Controlled()) {
    MaybeSwitch(t_self, false);
    for (Thr* t : g_thr)
      if (t->id && !t->joined && pthread_equal(t->handle, h)) {
        t->joined = true;   // its handle may be used again
        while (t->state != kDone) Block(kJoin, t);
        break;
      }
  }
  return real(h, ret);
}
int sched_yield() {
  REAL(sched_yield);
  if (!Controlled()) return real();
  MaybeSwitch(t_self, true);
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) {
  REAL(nanosleep);
  if (!Controlled()) return real(ts, rem);
  MaybeSwitch(t_self, true);
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* ts, struct timespec* rem) {
  REAL(clock_nanosleep);
  if (!Controlled()) return real(c, f, ts, rem);
  MaybeSwitch(t_self, true);
  return 0;
}
// One-time initialisations: who else arrives while one is under way waits for its end under the scheduler.
static std::map<const void*, Thr*> g_once;
static void OnceEnter(const void* o) {
  for (;;) {
    auto it = g_once.find(o);
    if (it == g_once.end()) break;
    if (it->second == t_self) return;
    Block(kMutex, o);
  }
  g_once[o] = t_self;
}
static void OnceLeave(const void* o) {
  g_once.erase(o);
  Wake(kMutex, o);
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  REAL(pthread_once);
  if (!Controlled()) return real(o, fn);
  OnceEnter(o);
  struct Leave {
    const void* o;
    ~Leave() { OnceLeave(o); }
  } leave{o};
  return real(o, fn);
}
int __cxa_guard_acquire(long long* g) {
  static auto real = Real<int (*)(long long*)>("__cxa_guard_acquire");
  if (!Controlled()) return real(g);
  OnceEnter(g);
  int r = real(g);
  if (!r) OnceLeave(g);
  return r;
}
void __cxa_guard_release(long long* g) {
  static auto real = Real<void (*)(long long*)>("__cxa_guard_release");
  real(g);
  if (Controlled()) OnceLeave(g);
}
void __cxa_guard_abort(long long* g) {
  static auto real = Real<void (*)(long long*)>("__cxa_guard_abort");
  real(g);
  if (Controlled()) OnceLeave(g);
}

int epoll_wait(int fd, struct epoll_event* ev, int n, int timeout) {
  REAL(epoll_wait);
  if (!Controlled()) return real(fd, ev, n, timeout);
  MaybeSwitch(t_self, false);
  for (;;) {
    int r = real(fd, ev, n, 0);
    if (r != 0) {
      Progress();
      return r;
    }
    if (timeout == 0) return 0;
    if (timeout > 0) {  // a timer: time passes
      Block(kPoll, reinterpret_cast<void*>(intptr_t(fd)));
      return real(fd, ev, n, timeout > 5 ? 5 : timeout);
    }
    Block(kPoll, reinterpret_cast<void*>(intptr_t(fd)));
  }
}
}  // extern "C"

// std::future and std::async wait through these.
namespace std {
struct __atomic_futex_unsigned_base {
  bool _M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns);
  bool _M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns);
  static void _M_futex_notify_all(unsigned* addr);
};
static bool FutexBlock(unsigned* addr, unsigned val, bool has_timeout) {
  MaybeSwitch(t_self, has_timeout);
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  if (has_timeout) return false;
  Block(kFutex, addr);
  return true;
}
typedef bool (*WaitFn)(void*, unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool ht, chrono::seconds s,
                                                       chrono::nanoseconds ns) {
  static auto real = Real<WaitFn>(
      "_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
  if (!Controlled()) return real(this, addr, val, ht, s, ns);
  return FutexBlock(addr, val, ht);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool ht, chrono::seconds s,
                                                              chrono::nanoseconds ns) {
  static auto real = Real<WaitFn>(
      "_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
  if (!Controlled()) return real(this, addr, val, ht, s, ns);
  return FutexBlock(addr, val, ht);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
  static auto real = Real<void (*)(unsigned*)>("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
  if (!Controlled()) return real(addr);
  Progress();
  Wake(kFutex, addr);
  MaybeSwitch(t_self, false);
}
}  // namespace std
