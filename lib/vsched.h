// Controlled scheduler for real threaded code. Inside explore() exactly one thread runs at a time;
// every pthread operation, futex wait, sleep and (simulated) socket call of a controlled thread is a
// scheduling point, and a depth-first search replays the program from its start for every branch.
#ifndef SCHED_H
#define SCHED_H
#include <stddef.h>
#include <stdint.h>
#include <exception>
#include <functional>
#include <string>
#include <vector>

namespace sched {
enum Policy { kStayLow = 0, kStayHigh = 1, kRotate = 2, kLowFirst = 3, kHighFirst = 4, kPolicies = 5 };
struct Options {
  int policy = kStayLow;      // what runs by default
  int deviations = 1;         // scheduling decisions that may differ from the default
  int env = 0;                // environment decisions (faults, short I/O, spurious wake-ups) that may differ
  bool dpor = false;          // explore all interleavings, with partial-order reduction (deviations ignored)
  bool full = false;          // explore all interleavings without reduction (deviations ignored)
  int bucket = 0, buckets = 1;  // this share of the first branches
  int idle_wakes = 4;         // sleeps that may expire in a row while nothing else can run
  long steps = 100000;        // an execution longer than this does not terminate
  bool atomics = true;        // atomic operations are scheduling points (race builds only)
  bool spurious = false;      // condition waits may return without a notification (env budget)
  bool expect_deadlock = false;  // deadlock is reported to check() rather than as a violation
  bool frozen = false;        // begin with explore_from_here(false)
  long max_runs = 0;          // die if exceeded (0: none)
};
struct Stats { uint64_t runs = 0, steps = 0, points = 0, redundant = 0; size_t depth = 0; bool complete = true; };

// setup() runs before every execution and spawns the first threads; check() after it.
Stats explore(const Options& o, const std::function<void()>& setup, const std::function<void()>& check);
// Creates a controlled thread (only from setup()). lazy > 0: it starts only after the other threads
// have gone through that many idle sleeps, or nothing else can run.
int spawn(std::function<void()> fn, const std::string& name, int lazy = 0);
// A decision of the environment: 0 is the default, any other value costs one unit of the env budget.
// free: alternatives cost nothing.
int choose(int n, const char* what, bool free_of_charge = false);
void mark(bool end);                                     // an operation of a history begins / ends: begins and ends are mutually ordered
void point(uintptr_t object, const char* what);          // explicit scheduling point
void explore_from_here(bool on);                         // while off, the default schedule is followed without branching (initially on)
void barrier(int n, bool then_explore);                  // waits until n threads have come here; exploration is then switched on or off
bool controlled();            // is the caller a controlled thread inside an execution
int self();                   // its number
int group();                  // number of the spawned thread it descends from
int live_threads();           // controlled threads that have not ended
int live_in_group(int g);     // the same for one group, the spawned thread itself excluded
std::string threads();        // what every unfinished thread is waiting for
uint64_t trace_hash();        // identifies the schedule so far
// thrown out of blocking calls once nothing could run and expect_deadlock is set, to end the execution
struct Aborted : std::exception { const char* what() const noexcept override { return "the execution is over"; } };
// The calling thread's program ends the process it stands for: its other threads stop where they are.
// Returns if there are none.
void end_process();
std::string deadlock_threads();   // what every thread was waiting for then
bool deadlocked();            // the execution that just ended was stopped with nothing enabled
std::string schedule();       // decisions that differ from the default in this execution

// --- used by the simulated kernel: perform an operation when ready() holds
enum Kind { kStart, kLock, kUnlock, kTry, kWait, kReacquire, kNotify, kJoin, kExit, kCreate, kFutexWait, kFutexWake, kOnce, kSleep, kYield, kAtomic, kIo, kEnv, kBegin, kEnd };
void operation(Kind k, uintptr_t a, uintptr_t b, const char* what, const std::function<bool()>* ready);
void kernel_event(bool wakes_sleepers);   // something happened (that a sleeping thread may be waiting for)
long current_run();
}  // namespace sched

// Scheduler code running on a controlled thread is not part of the program: template functions it
// shares with the program may be instrumented, so their accesses are muted.
extern thread_local int sched_tid;
struct SchedQuiet { int old; SchedQuiet() : old(sched_tid) { sched_tid = -1; } ~SchedQuiet() { sched_tid = old; } SchedQuiet(const SchedQuiet&) = delete; };

// hooks of the race detector (lib/race.cc); absent in other builds
extern "C" {
void race_memory(const void* p, size_t n, int write) __attribute__((weak));
void race_run_begin() __attribute__((weak));
void race_run_end() __attribute__((weak));
void race_thread_begin(int tid, void* stack, size_t size) __attribute__((weak));
void race_fork(int parent, int child) __attribute__((weak));
void race_join(int waiter, int ended) __attribute__((weak));
void race_acquire(int tid, uintptr_t obj) __attribute__((weak));
void race_release(int tid, uintptr_t obj) __attribute__((weak));
}
#endif
