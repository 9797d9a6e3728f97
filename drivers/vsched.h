// Controlled scheduling of all threads of a driver.  Between Begin and End exactly one thread runs
// at a time; at every synchronisation call (interposed in vsched.cc) and, in code compiled with
// -fsanitize-coverage=trace-pc, at every basic block, the scheduler may switch to another thread, as
// decided by the seed and policy alone.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <cstdint>
#include <functional>
#include <string>

namespace sched {

struct Policy {
  uint64_t seed = 1;
  int pct = 0;            // > 0: priority-based with that many change points, else random
  int p_sync = 500;       // random: per mille chance to switch at a synchronisation call
  int p_block = 5;        // per 10000 chance to switch at a basic block
  int spurious = 20;      // per mille chance that a condition wait wakes spuriously
  uint64_t max_steps = 5000000;
};

// on_fail is called once, with "deadlock", "livelock" or "crash:<signal>"; it must write out what it
// wants and not return.
void Begin(const Policy& p, std::function<void(const std::string&)> on_fail);
void End();
bool Active();
int Self();                 // 0: the thread that called Begin
uint64_t Rand(uint64_t n);  // deterministic
// Blocks until no other thread can run.  Returns false if at least one of them is waiting for I/O
// (nothing has arrived within a few milliseconds of real time).
void Quiesce();
int Alive();                // other controlled threads which have not finished
void Point();               // an extra preemption point
uint64_t Steps();
bool Inside();              // this thread is in the scheduler
struct NoSwitch {           // no preemption at basic blocks or mutexes while it lives
  NoSwitch();
  ~NoSwitch();
};
}  // namespace sched
#endif
