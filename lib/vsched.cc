#include "vsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <linux/futex.h>
#include <string.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <deque>
#include <memory>
#include <unordered_map>

#include "vh.h"

thread_local int sched_tid = -1;
namespace {
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
template <class F> F next_symbol(const char* name) { F f = (F)dlsym(RTLD_NEXT, name); if (!f) { fprintf(stderr, "no %s\n", name); _exit(2); } return f; }
template <class F> F next_cond(const char* name) { F f = (F)dlvsym(RTLD_NEXT, name, "GLIBC_2.3.2"); return f ? f : next_symbol<F>(name); }
#define REALC(ret, name, ...) static ret (*f)(__VA_ARGS__) = next_cond<ret (*)(__VA_ARGS__)>(#name)
#define REAL(ret, name, ...) static ret (*f)(__VA_ARGS__) = next_symbol<ret (*)(__VA_ARGS__)>(#name)

using namespace sched;
struct Op { Kind k = kStart; uintptr_t a = 0, b = 0; const char* what = ""; const std::function<bool()>* ready = nullptr; };
struct Thr {
  int id = 0, group = 0; std::string name; pthread_t os; bool os_valid = false, detached = false, reaped = false;
  volatile int* go = nullptr; bool started = false, done = false; Op op;
  bool signaled = false, timed = false, timed_out = false;     // condition / futex waits
  long slept_at = 0; bool yielded = false; int lazy = 0;
  void* (*routine)(void*) = nullptr; void* arg = nullptr; std::function<void()> fn; void* ret = nullptr;
  bool aborted = false, vanished = false;
};
struct Mutex { int owner = -1; int count = 0; };
struct Rw { int writer = -1; std::vector<int> readers; };
struct Node {
  bool env = false; std::vector<int> alts; int pos = 0; int free_of_charge = 0; const char* what = "";
  // partial-order reduction
  std::vector<int> enabled; std::vector<char> backtrack, done, sleep; int chosen = -1; Op op; std::vector<int> clock;
};
struct World {
  Options o; std::vector<std::unique_ptr<Thr>> t; std::vector<Node> stack; size_t depth = 0;
  int cur = -1; int dev_used = 0, env_used = 0; long steps = 0; long sleep_epoch = 0, idle = 0; bool redundant = false, frozen = false; int arrived = 0;
  std::unordered_map<uintptr_t, Mutex> mutexes; std::unordered_map<uintptr_t, std::deque<int>> conds, futexes; std::unordered_map<uintptr_t, Rw> rws;
  std::unordered_map<uintptr_t, int> onces; int alive = 0; volatile int finished = 0; bool running = false, deadlock = false, stopping = false;
  size_t first_branch = 0; uint64_t hash = 0; long run = 0; int rotate = -1; std::string dev_text, deadlock_text;
  // partial-order reduction: clocks of threads and objects
  std::vector<std::vector<int>> tclock; std::vector<std::pair<int, size_t>> trace;  // (thread, node)
  std::unordered_map<uintptr_t, std::vector<int>> oclock;
  std::vector<char> cursleep;
  Stats st;
};
World* W = nullptr;
thread_local Thr* me = nullptr;
bool in() { return me && W && W->running; }

void wake(volatile int* p) { __atomic_store_n(p, 1, __ATOMIC_SEQ_CST); raw(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1); }
void await(volatile int* p) { while (!__atomic_load_n(p, __ATOMIC_SEQ_CST)) raw(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, 0, 0); __atomic_store_n(p, 0, __ATOMIC_SEQ_CST); }

bool enabled(Thr& x, bool idle) {
  if (x.done || x.vanished) return false;
  if (x.aborted) return true;
  const Op& p = x.op;
  switch (p.k) {
    case kStart: return x.lazy <= 0 || idle;
    case kLock: { auto it = W->mutexes.find(p.a); return it == W->mutexes.end() || it->second.owner < 0; }
    case kReacquire: {
      if (!x.signaled && !(x.timed && (idle || x.timed_out))) return false;
      auto it = W->mutexes.find(p.a); return it == W->mutexes.end() || it->second.owner < 0; }
    case kFutexWait: return x.signaled || (x.timed && (idle || x.timed_out));
    case kJoin: return W->t[p.a]->done;
    case kSleep: return idle || W->sleep_epoch > x.slept_at;
    case kOnce: case kIo: case kEnv: default: return !p.ready || (*p.ready)();
  }
}
const char* kind_name(Kind k) {
  static const char* n[] = {"start", "lock", "unlock", "trylock", "wait", "wake from wait", "notify", "join", "exit", "create thread", "futex wait", "futex wake", "once", "sleep", "yield", "atomic", "", "", "begin of an operation", "end of an operation"};
  return n[k];
}
std::string describe(const Thr& x) { return x.name + ": " + (x.op.k == kIo || x.op.k == kEnv || x.op.k == kAtomic ? x.op.what : kind_name(x.op.k)); }

// ---- partial-order reduction
bool lock_like(Kind k) { return k == kLock || k == kTry || k == kReacquire; }
// may the two pending operations race (dependent and possibly enabled together)?
bool racing(const Op& x, const Op& y) {
  bool mx = x.k == kBegin || x.k == kEnd, my = y.k == kBegin || y.k == kEnd;
  if (mx || my) return mx && my && x.k != y.k;
  auto shares = [](const Op& p, const Op& q) { return (p.a && (p.a == q.a || p.a == q.b)) || (p.b && (p.b == q.a || p.b == q.b)); };
  if (!shares(x, y)) return false;
  if (x.k == kExit || y.k == kExit || x.k == kJoin || y.k == kJoin || x.k == kStart || y.k == kStart || x.k == kCreate || y.k == kCreate) return false;
  if (x.k == kUnlock || y.k == kUnlock) return x.k == kTry || y.k == kTry;
  if (x.k == kFutexWait || y.k == kFutexWait) return false;       // enabled by its wake: ordered, not racing
  // wait releases the mutex (b) and registers at the condition (a)
  if (x.k == kWait || y.k == kWait) { const Op& o = x.k == kWait ? y : x; const Op& w = x.k == kWait ? x : y; return o.k == kTry || (o.k == kNotify && o.a == w.a); }
  if (x.k == kReacquire || y.k == kReacquire) { const Op& o = x.k == kReacquire ? y : x; const Op& r = x.k == kReacquire ? x : y; return lock_like(o.k) && o.a == r.a; }
  return true;
}
// is there an ordering edge between two executed operations?
bool ordered(const Op& x, const Op& y) {
  if (x.k == kEnv || y.k == kEnv) return false;
  if (x.k == kBegin || x.k == kEnd || y.k == kBegin || y.k == kEnd) return racing(x, y);
  return (x.a && (x.a == y.a || x.a == y.b)) || (x.b && (x.b == y.a || x.b == y.b));
}
void dpor_update(const std::vector<int>& en) {
  World& w = *W;
  int n = (int)w.t.size();
  for (int p = 0; p < n; p++) {
    Thr& x = *w.t[p]; if (x.done) continue;
    if ((int)w.tclock.size() < n) w.tclock.resize((size_t)n);
    auto& c = w.tclock[p];
    for (size_t j = w.trace.size(); j-- > 0;) {
      int q = w.trace[j].first; Node& nd = w.stack[w.trace[j].second];
      if (q == p || !racing(nd.op, x.op)) continue;
      if (q < (int)c.size() && c[q] >= (int)j + 1) continue;   // ordered before p's next operation
      bool found = false;
      for (int e : nd.enabled) if (e == p) { nd.backtrack[p] = 1; found = true; }
      if (!found) {
        for (size_t k = j + 1; k < w.trace.size() && !found; k++) {
          int r = w.trace[k].first;
          if (r < (int)c.size() && c[r] >= (int)k + 1) for (int e : nd.enabled) if (e == r) { nd.backtrack[r] = 1; found = true; }
        }
        if (!found) for (int e : nd.enabled) nd.backtrack[e] = 1;
        continue;      // p could not run there: an earlier operation may be the one it races with
      }
      break;
    }
  }
  (void)en;
}
void dpor_executed(int p, size_t node) {
  World& w = *W; Node& nd = w.stack[node];
  int idx = (int)w.trace.size() + 1; w.trace.push_back({p, node});
  if ((int)w.tclock.size() < (int)w.t.size()) w.tclock.resize(w.t.size());
  auto join = [](std::vector<int>& a, const std::vector<int>& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); };
  auto& c = w.tclock[p];
  if (nd.op.k == kBegin || nd.op.k == kEnd) {
    bool e = nd.op.k == kEnd; join(c, w.oclock[e ? 1 : 2]);
    if ((int)c.size() <= p) c.resize(p + 1);
    c[p] = idx; join(w.oclock[e ? 2 : 1], c);
    return;
  }
  if (nd.op.a && nd.op.k != kJoin && nd.op.k != kExit && nd.op.k != kStart) join(c, w.oclock[nd.op.a]);
  if (nd.op.b) join(c, w.oclock[nd.op.b]);
  if (nd.op.k == kJoin) join(c, w.tclock[nd.op.a]);
  if ((int)c.size() <= p) c.resize(p + 1);
  c[p] = idx;
  if (nd.op.a && nd.op.k != kJoin && nd.op.k != kExit && nd.op.k != kStart) w.oclock[nd.op.a] = c;
  if (nd.op.b) w.oclock[nd.op.b] = c;
}

void dpor_enables(int from, int to) {       // an executed operation of from enabled to
  if (!W->o.dpor || W->redundant) return;
  if ((int)W->tclock.size() < (int)W->t.size()) W->tclock.resize(W->t.size());
  auto& a = W->tclock[(size_t)to]; auto& b = W->tclock[(size_t)from];
  if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
int pick_enabled();
// Picks the next thread; the caller holds the baton. Returns -1 when nothing can run.
int pick() {
  int c = pick_enabled();
  if (c >= 0 || !W->o.expect_deadlock) return c;
  if (!W->deadlock) { W->deadlock = true; W->deadlock_text = threads(); }
  W->frozen = true;
  bool any = false;
  for (auto& x : W->t) if (!x->done && (x->op.k == kIo || x->op.k == kSleep)) any = x->aborted = true;
  return any ? pick_enabled() : -1;
}
int pick_enabled() {
  World& w = *W;
  std::vector<int> en; int n = (int)w.t.size();
  for (int i = 0; i < n; i++) if (enabled(*w.t[i], false)) en.push_back(i);
  if (en.empty()) {
    // time passes: sleeps and timed waits expire; late starters start after enough of them
    bool lazy = false, sleepers = false;
    for (int i = 0; i < n; i++) { Thr& x = *w.t[i]; if (x.done) continue; if (x.op.k == kStart && !x.started && x.lazy > 0) lazy = true; else if (enabled(x, true)) sleepers = true; }
    w.idle++;
    if (lazy) {
      for (int i = 0; i < n; i++) { Thr& x = *w.t[i]; if (x.done || x.started || x.op.k != kStart || x.lazy <= 0) continue; if (!sleepers || --x.lazy <= 0) { x.lazy = 0; w.idle = 0; sleepers = sleepers && true; } }
      for (int i = 0; i < n; i++) if (enabled(*w.t[i], false)) en.push_back(i);
    }
    if (en.empty()) {
      if (!lazy && w.idle > w.o.idle_wakes) return -1;
      w.sleep_epoch++;                                   // every sleeper may run once before any runs twice
      for (int i = 0; i < n; i++) { Thr& x = *w.t[i]; if (!x.done && (x.op.k == kReacquire || x.op.k == kFutexWait) && x.timed && !x.signaled) x.timed_out = true; }
      for (int i = 0; i < n; i++) if (enabled(*w.t[i], false)) en.push_back(i);
    }
    if (en.empty()) return -1;
  }
  int def = -1;
  bool cur_ok = w.cur >= 0 && std::find(en.begin(), en.end(), w.cur) != en.end() && !w.t[w.cur]->yielded;
  std::vector<int> cand; for (int i : en) if (!w.t[i]->yielded) cand.push_back(i);
  if (cand.empty()) { cand = en; for (int i : en) w.t[i]->yielded = false; }
  switch (w.o.policy) {
    case kStayLow: def = cur_ok ? w.cur : cand.front(); break;
    case kStayHigh: def = cur_ok ? w.cur : cand.back(); break;
    case kRotate: { auto it = std::upper_bound(cand.begin(), cand.end(), w.cur); def = it == cand.end() ? cand.front() : *it; break; }
    case kLowFirst: def = cand.front(); break;
    default: def = cand.back(); break;
  }
  if (en.size() == 1 && !w.o.dpor) return en[0];
  if (w.frozen) return def;
  // an operation nothing can race with needs no branching
  if (!w.o.dpor && w.cur >= 0 && cur_ok && (w.t[w.cur]->op.k == kUnlock)) return w.cur;
  if (w.redundant) return def;
  w.st.points++;
  size_t d = w.depth++;
  if (w.o.dpor) dpor_update(en);
  if (d < w.stack.size()) {
    Node& nd = w.stack[d];
    if (nd.env) vh::die("sched: replay diverged (environment decision expected: %s)", nd.what);
    if (w.o.dpor) {
      if (nd.enabled != en) vh::die("sched: replay diverged (enabled set)");
      nd.op = w.t[nd.chosen]->op; nd.op.ready = nullptr;
      w.cursleep = nd.sleep; w.cursleep.resize(w.t.size(), 0);
      for (size_t i = 0; i < nd.done.size(); i++) if (nd.done[i] && (int)i != nd.chosen) w.cursleep[i] = 1;
    } else if (nd.alts[0] != def || nd.alts.size() != en.size()) vh::die("sched: replay diverged (default thread %d/%zu, was %d/%zu)", def, en.size(), nd.alts[0], nd.alts.size());
  } else {
    Node nd; nd.what = "thread";
    if (w.o.dpor) {
      nd.enabled = en; size_t m = w.t.size();
      nd.backtrack.assign(64, 0); nd.done.assign(64, 0); w.cursleep.resize(m, 0); nd.sleep = w.cursleep; nd.sleep.resize(64, 0);
      int c = -1; if (!nd.sleep[def]) c = def; else for (int i : en) if (!nd.sleep[i]) { c = i; break; }
      if (c < 0) { w.redundant = true; w.depth--; return def; }
      nd.chosen = c; nd.backtrack[c] = 1; nd.op = w.t[c]->op; nd.op.ready = nullptr;
    } else {
      nd.alts.push_back(def); for (int i : en) if (i != def) nd.alts.push_back(i);
    }
    w.stack.push_back(nd);
  }
  Node& nd = w.stack[d];
  int c;
  if (w.o.dpor) {
    c = nd.chosen;
    // whatever sleeps and depends on the executed operation wakes up
    for (size_t i = 0; i < w.cursleep.size(); i++) if (w.cursleep[i] && (i >= w.t.size() || (int)i == c || racing(w.t[i]->op, nd.op) || ordered(w.t[i]->op, nd.op))) w.cursleep[i] = 0;
    dpor_executed(c, d);
  } else {
    c = nd.alts[nd.pos];
    if (nd.pos) { w.dev_used++; if (w.dev_text.size() < 1500) w.dev_text += (w.dev_text.empty() ? "" : "; ") + std::string("step ") + std::to_string(w.steps) + ": " + describe(*w.t[c]) + " instead of " + describe(*w.t[nd.alts[0]]); }
  }
  return c;
}
void stop_execution() {      // nothing can run although threads remain
  World& w = *W;
  w.deadlock = true;
  if (!w.o.expect_deadlock) vh::fail("no thread can make progress: %s%s%s", threads().c_str(), w.dev_text.empty() ? "" : " | schedule: ", w.dev_text.c_str());
  w.stopping = true; wake(&w.finished);
}
// Announces the caller's next operation and returns when it may be performed.
void announce() {
  World& w = *W;
  if (++w.steps > w.o.steps) vh::fail("the execution does not terminate (more than %ld steps): %s%s%s", w.o.steps, threads().c_str(), w.dev_text.empty() ? "" : " | schedule: ", w.dev_text.c_str());
  if (w.steps % 10000 == 0) vh::progress();
  Thr* self = me;
  int c = pick();
  if (c < 0) { stop_execution(); await(self->go); }
  else if (c != self->id) {
    w.cur = c;
    wake(w.t[c]->go); await(self->go);
  } else w.cur = c;
  // performed now
  w.hash = vh::mix(w.hash, (uint64_t)self->id * 32 + self->op.k); w.st.steps++;
  if (self->op.k != kSleep && self->op.k != kIo && self->op.k != kYield) w.idle = 0;
  for (auto& x : w.t) if (x.get() != self) x->yielded = false;
}
void leave() {               // the caller has ended
  World& w = *W;
  me->done = true; w.alive--; w.hash = vh::mix(w.hash, (uint64_t)me->id * 32 + 31);
  if (!w.alive) { w.running = false; me = nullptr; wake(&w.finished); return; }
  int c = pick();
  if (c < 0) { stop_execution(); me = nullptr; return; }
  w.cur = c;
  me = nullptr;
  wake(w.t[c]->go);
}
// Operating system threads are reused from one execution to the next; a controlled thread finds the
// executable's thread-local variables in their initial state.
struct Worker { volatile int go = 0; Thr* job = nullptr; pthread_t os; void* stack = nullptr; size_t stack_size = 0; std::vector<std::pair<void (*)(void*), void*>> at_exit; };
std::vector<Worker*> g_pool; size_t g_pool_used = 0; long g_vanished = 0;
thread_local Worker* my_worker = nullptr;
void reset_tls() {
  dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) {
    if (i->dlpi_name && i->dlpi_name[0]) return 0;           // only the executable itself
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
      const auto& h = i->dlpi_phdr[k]; char* d = (char*)i->dlpi_tls_data;
      memcpy(d, (const char*)(i->dlpi_addr + h.p_vaddr), h.p_filesz); memset(d + h.p_filesz, 0, h.p_memsz - h.p_filesz);
    }
    return 1;
  }, nullptr);
}
void* work(void* p) {
  Worker* self = (Worker*)p;
  while (true) {
    await(&self->go);
    reset_tls();
    Thr* x = self->job; me = x; my_worker = self;
    x->started = true; W->steps++; W->st.steps++; W->hash = vh::mix(W->hash, (uint64_t)x->id * 32 + 30);
    for (auto& y : W->t) if (y.get() != x) y->yielded = false;
    if (race_thread_begin) race_thread_begin(x->id, self->stack, self->stack_size);
    sched_tid = x->id;
    if (x->fn) x->fn(); else x->ret = x->routine(x->arg);
    while (!self->at_exit.empty()) { auto a = self->at_exit.back(); self->at_exit.pop_back(); a.first(a.second); }
    sched_tid = -1;
    x->op = Op(); x->op.k = kExit; announce();
    leave();
  }
  return nullptr;
}
int real_create(pthread_t* t, const pthread_attr_t* a, void* (*r)(void*), void* arg);
pthread_attr_t* small_stack();
void assign(Thr* x) {
  if (g_pool_used == g_pool.size()) {
    Worker* n = new Worker; if (real_create(&n->os, small_stack(), work, n)) vh::die("cannot create a thread");
    pthread_attr_t a; if (!pthread_getattr_np(n->os, &a)) { pthread_attr_getstack(&a, &n->stack, &n->stack_size); pthread_attr_destroy(&a); }
    g_pool.push_back(n);
  }
  Worker* w = g_pool[g_pool_used++]; w->job = x; w->at_exit.clear(); x->go = &w->go; x->os = w->os; x->os_valid = true;
}
Thr* new_thread(int group, const std::string& name) {
  World& w = *W;
  Thr* x = new Thr; x->id = (int)w.t.size(); x->group = group < 0 ? x->id : group; x->name = name; x->op.k = kStart;
  if (x->id >= 64 && w.o.dpor) vh::die("too many threads");
  w.t.emplace_back(x); w.alive++;
  return x;
}
int real_create(pthread_t* t, const pthread_attr_t* a, void* (*r)(void*), void* arg) {
  REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  return f(t, a, r, arg);
}
int real_join(pthread_t t, void** r) { REAL(int, pthread_join, pthread_t, void**); return f(t, r); }
pthread_attr_t* small_stack() { static pthread_attr_t* a = [] { auto* x = new pthread_attr_t; pthread_attr_init(x); pthread_attr_setstacksize(x, 1 << 20); return x; }(); return a; }
void pin() {
  static bool once = [] {
    // all threads of this process on one core: handing over is then cheap
    cpu_set_t s; if (sched_getaffinity(0, sizeof s, &s)) return true;
    std::vector<int> c; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &s)) c.push_back(i);
    if (c.empty()) return true;
    int slot = 0; size_t q = vh::ctx().out.find_last_of('w'); if (q != std::string::npos) slot = atoi(vh::ctx().out.c_str() + q + 1);
    CPU_ZERO(&s); CPU_SET(c[(size_t)slot % c.size()], &s); sched_setaffinity(0, sizeof s, &s);
    return true;
  }();
  (void)once;
}
}  // namespace

namespace sched {
bool controlled() { return in(); }
void end_process() {
  World& w = *W; int n = 0;
  for (auto& x : w.t) if (!x->done && x.get() != me && x->group == me->group) n++;
  if (!n) return;
  if (++g_vanished > 400) { vh::ctx().skipped++; vh::ctx().deadline = 0; return; }     // these operating system threads are never used again
  Thr* self = me;
  for (auto& x : w.t) if (!x->done && x.get() != me && x->group == me->group) { x->done = x->vanished = true; w.alive--; }
  self->vanished = true;
  leave();
  while (true) await(self->go);
}
int self() { return me ? me->id : -1; }
int group() { return me ? me->group : -1; }
int live_threads() { return W ? W->alive : 0; }
int live_in_group(int g) { int k = 0; for (auto& x : W->t) if (!x->done && x->group == g && x->id != g) k++; return k; }
std::string threads() { std::string s; for (auto& x : W->t) if (!x->done) s += (s.empty() ? "" : ", ") + describe(*x); return s; }
uint64_t trace_hash() { return W->hash; }
std::string deadlock_threads() { return W->deadlock_text; }
bool deadlocked() { return W->deadlock; }
std::string schedule() { return W->dev_text; }
long current_run() { return W ? W->run : 0; }
void kernel_event(bool wakes) { if (W) { W->idle = 0; if (wakes) W->sleep_epoch++; } }
int spawn(std::function<void()> fn, const std::string& name, int lazy) {
  Thr* x = new_thread(-1, name); x->fn = fn; x->lazy = lazy;
  assign(x);
  return x->id;
}
int choose(int n, const char* what, bool free_of_charge) {
  SchedQuiet quiet_;
  if (!in() || n <= 1) return 0;
  World& w = *W;
  if (w.redundant) return 0;
  if ((!free_of_charge && w.o.env == 0) || w.frozen) return 0;
  size_t d = w.depth++;
  if (d < w.stack.size()) { if (!w.stack[d].env || (int)w.stack[d].alts.size() != n) vh::die("sched: replay diverged (environment: %s, was %s)", what, w.stack[d].what); }
  else { Node nd; nd.env = true; nd.what = what; nd.free_of_charge = free_of_charge; for (int i = 0; i < n; i++) nd.alts.push_back(i); w.stack.push_back(nd); }
  Node& nd = w.stack[d];
  if (nd.pos && !free_of_charge) w.env_used++;
  if (nd.pos) w.hash = vh::mix(w.hash, (uint64_t)nd.pos + 1000);
  if (nd.pos && w.dev_text.size() < 1500) w.dev_text += (w.dev_text.empty() ? "" : "; ") + std::string("step ") + std::to_string(w.steps) + " " + me->name + ": " + what + " #" + std::to_string(nd.pos);
  return nd.alts[nd.pos];
}
void operation(Kind k, uintptr_t a, uintptr_t b, const char* what, const std::function<bool()>* ready) {
  SchedQuiet quiet_;
  me->op = Op(); me->op.k = k; me->op.a = a; me->op.b = b; me->op.what = what; me->op.ready = ready;
  announce();
  me->op.ready = nullptr;
  if (me->aborted) { me->aborted = false; throw Aborted(); }
}
void explore_from_here(bool on) { if (in()) W->frozen = !on; }
void barrier(int n, bool then_explore) {
  if (!in()) return;
  SchedQuiet quiet_; World* w = W;
  if (++w->arrived == n) w->frozen = !then_explore;
  std::function<bool()> all = [w, n] { return w->arrived >= n; };
  operation(kIo, 0, 0, "waiting for the other parties", &all);
}
void mark(bool end) { if (in()) operation(end ? kEnd : kBegin, 0, 0, "", nullptr); }
void point(uintptr_t object, const char* what) { if (in()) operation(kAtomic, object, 0, what, nullptr); }

Stats explore(const Options& o, const std::function<void()>& setup, const std::function<void()>& check) {
  pin();
  World w; w.o = o; W = &w;
  if (o.dpor) w.o.deviations = 1 << 30;
  if (o.full) w.o.deviations = 1 << 30;
  while (true) {
    w.t.clear(); w.depth = 0; w.cur = -1; w.dev_used = w.env_used = 0; w.steps = 0; w.sleep_epoch = 0; w.idle = 0; w.redundant = false; w.frozen = o.frozen; w.arrived = 0;
    w.mutexes.clear(); w.conds.clear(); w.futexes.clear(); w.rws.clear(); w.onces.clear(); w.alive = 0; w.finished = 0; w.deadlock = w.stopping = false; w.hash = 0; w.dev_text.clear();
    w.tclock.clear(); w.trace.clear(); w.oclock.clear(); w.cursleep.clear();
    w.run++; w.st.runs++;
    if (race_run_begin) race_run_begin();
    setup();
    w.running = true;
    int c = pick();
    if (c < 0) vh::die("sched: nothing to run");
    w.cur = c;
    wake(w.t[c]->go);
    await(&w.finished);
    w.running = false;
    bool gone = false; for (auto& x : w.t) gone = gone || x->vanished;
    if (w.stopping || gone) {                           // parked for ever, with their workers
      std::vector<Worker*> keep; for (auto* k : g_pool) { bool parked = false; for (auto& x : w.t) if ((!x->done || x->vanished) && x->go == &k->go) parked = true; if (!parked) keep.push_back(k); }
      g_pool = keep; for (auto& x : w.t) if (!x->done || x->vanished) (void)x.release();
    }
    g_pool_used = 0;
    if (w.depth < w.stack.size()) vh::die("sched: replay diverged (shorter than before)");
    if (w.redundant) w.st.redundant++;
    if (race_run_end) race_run_end();
    check();
    w.st.depth = std::max(w.st.depth, w.stack.size());
    vh::progress();
    if (vh::abandon()) { w.st.complete = false; break; }
    if (o.max_runs && (long)w.st.runs >= o.max_runs) { w.st.complete = false; break; }
    if (w.run == 1) { w.stack.clear(); w.st = Stats(); continue; }       // warm-up: static variables are initialised now
    // next branch
    bool found = false;
    int dev = 0, env = 0;          // budget used up to and including the last node
    auto count = [&](const Node& x, int by) { if (x.pos) { if (x.env) { if (!x.free_of_charge) env += by; } else dev += by; } };
    for (auto& x : w.stack) count(x, 1);
    while (!w.stack.empty() && !found) {
      count(w.stack.back(), -1);   // now: before it
      Node& nd = w.stack.back(); size_t d = w.stack.size() - 1;
      if (w.o.dpor && !nd.env) {
        nd.done[nd.chosen] = 1;
        for (int e : nd.enabled) if (nd.backtrack[e] && !nd.done[e] && !nd.sleep[e]) { nd.chosen = e; found = true; break; }
      } else if (nd.pos + 1 < (int)nd.alts.size()) {
        bool ok = nd.env ? (nd.free_of_charge || env < w.o.env) : dev < w.o.deviations;
        if (ok && dev + env == 0 && o.buckets > 1 && !nd.free_of_charge) {
          // the first branch decides which share an execution belongs to
          while (nd.pos + 1 < (int)nd.alts.size() && (int)((d * 31 + (size_t)nd.pos + 1) % (size_t)o.buckets) != o.bucket) nd.pos++;
          ok = nd.pos + 1 < (int)nd.alts.size();
        }
        if (ok) { nd.pos++; found = true; }
      }
      if (!found) w.stack.pop_back();
    }
    if (!found) break;
  }
  W = nullptr;
  return w.st;
}
}  // namespace sched

// ------------------------------------------------------------------ interposed functions
namespace {
void acquire(uintptr_t a) { if (race_acquire) race_acquire(me->id, a); }
void release(uintptr_t a) { if (race_release) race_release(me->id, a); }
void lock(uintptr_t m, bool recursive) {
  auto& x = W->mutexes[m];
  if (x.owner == me->id && recursive) { x.count++; return; }
  operation(kLock, m, 0, "lock", nullptr);
  auto& y = W->mutexes[m]; y.owner = me->id; y.count = 1; acquire(m);
}
int unlock(uintptr_t m) {
  auto& x = W->mutexes[m];
  if (x.owner != me->id) vh::fail("a mutex is unlocked by a thread that does not hold it");
  if (x.count > 1) { x.count--; return 0; }
  operation(kUnlock, m, 0, "unlock", nullptr);
  release(m); auto& y = W->mutexes[m]; y.owner = -1; y.count = 0;
  return 0;
}
int cond_wait(uintptr_t c, uintptr_t m, bool timed) {
  Thr* x = me;
  if (W->mutexes[m].owner != x->id) vh::fail("a condition wait without holding the mutex");
  operation(kWait, c, m, "wait", nullptr);
  release(m); W->mutexes[m].owner = -1; int cnt = W->mutexes[m].count; W->mutexes[m].count = 0;
  x->signaled = false; x->timed = timed; x->timed_out = false;
  if (W->o.spurious && choose(2, "spurious wake-up")) x->signaled = true; else W->conds[c].push_back(x->id);
  operation(kReacquire, m, c, "wake from wait", nullptr);
  auto& q = W->conds[c]; auto it = std::find(q.begin(), q.end(), x->id); if (it != q.end()) q.erase(it);
  W->mutexes[m].owner = x->id; W->mutexes[m].count = cnt; acquire(m);
  return x->timed_out && !x->signaled ? ETIMEDOUT : 0;
}
bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
void sleep_once() { me->slept_at = W->sleep_epoch; me->yielded = true; operation(kSleep, 0, 0, "sleep", nullptr); }
}  // namespace

extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*r)(void*), void* arg) {
  if (!in()) return real_create(t, a, r, arg);
  SchedQuiet quiet_;
  operation(kCreate, 0, 0, "create thread", nullptr);
  Thr* x = new_thread(me->group, me->name + "+" + std::to_string(W->t.size()));
  x->routine = r; x->arg = arg;
  if (race_fork) race_fork(me->id, x->id);
  if (W->o.dpor) { W->tclock.resize(W->t.size()); W->tclock[(size_t)x->id] = W->tclock[(size_t)me->id]; }
  assign(x); *t = x->os;
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  if (!in()) return real_join(t, r);
  SchedQuiet quiet_;
  for (auto& u : W->t) if (u->os_valid && !u->reaped && !u->detached && pthread_equal(u->os, t)) {
    Thr* x = u.get();             // the list may grow meanwhile
    operation(kJoin, (uintptr_t)x->id, 0, "join", nullptr);
    if (race_join) race_join(me->id, x->id);
    x->reaped = true;
    if (r) *r = x->ret;
    return 0;
  }
  vh::fail("join of an unknown thread");
  return ESRCH;
}
int pthread_detach(pthread_t t) {
  if (SchedQuiet quiet_; in()) for (auto& x : W->t) if (x->os_valid && !x->reaped && pthread_equal(x->os, t)) x->detached = true;
  if (in()) return 0;
  REAL(int, pthread_detach, pthread_t); return f(t);
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (SchedQuiet quiet_; in()) { lock((uintptr_t)m, recursive(m)); return 0; } REAL(int, pthread_mutex_lock, pthread_mutex_t*); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (SchedQuiet quiet_; in()) return unlock((uintptr_t)m); REAL(int, pthread_mutex_unlock, pthread_mutex_t*); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (SchedQuiet quiet_; in()) {
    auto& y = W->mutexes[(uintptr_t)m]; if (y.owner == me->id && recursive(m)) { y.count++; return 0; }
    operation(kTry, (uintptr_t)m, 0, "trylock", nullptr);
    auto& x = W->mutexes[(uintptr_t)m]; if (x.owner >= 0) return EBUSY;
    x.owner = me->id; x.count = 1; acquire((uintptr_t)m); return 0;
  }
  REAL(int, pthread_mutex_trylock, pthread_mutex_t*); return f(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { if (SchedQuiet quiet_; in()) { lock((uintptr_t)m, recursive(m)); return 0; } REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*); return f(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { if (SchedQuiet quiet_; in()) { lock((uintptr_t)m, recursive(m)); return 0; } REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const struct timespec*); return f(m, c, ts); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (SchedQuiet quiet_; in()) return cond_wait((uintptr_t)c, (uintptr_t)m, false); REALC(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*); return f(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (SchedQuiet quiet_; in()) return cond_wait((uintptr_t)c, (uintptr_t)m, true); REALC(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*); return f(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (SchedQuiet quiet_; in()) return cond_wait((uintptr_t)c, (uintptr_t)m, true); REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); return f(c, m, k, ts); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (SchedQuiet quiet_; in()) {
    operation(kNotify, (uintptr_t)c, 0, "notify", nullptr);
    auto& q = W->conds[(uintptr_t)c];
    if (!q.empty()) { int k = choose((int)q.size(), "which waiter is notified", true); int id = q[(size_t)k]; q.erase(q.begin() + k); W->t[(size_t)id]->signaled = true; dpor_enables(me->id, id); }
    return 0;
  }
  REALC(int, pthread_cond_signal, pthread_cond_t*); return f(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (SchedQuiet quiet_; in()) {
    operation(kNotify, (uintptr_t)c, 0, "notify all", nullptr);
    auto& q = W->conds[(uintptr_t)c]; for (int id : q) { W->t[(size_t)id]->signaled = true; dpor_enables(me->id, id); } q.clear();
    return 0;
  }
  REALC(int, pthread_cond_broadcast, pthread_cond_t*); return f(c);
}
int pthread_cond_destroy(pthread_cond_t* c) { if (SchedQuiet quiet_; in()) { if (!W->conds[(uintptr_t)c].empty()) vh::fail("a condition variable is destroyed while a thread waits on it"); W->conds.erase((uintptr_t)c); return 0; } REALC(int, pthread_cond_destroy, pthread_cond_t*); return f(c); }
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (SchedQuiet quiet_; in()) {
    // 0: never, 1: running, 2: done
    int& s = W->onces[(uintptr_t)o];
    if (*(int*)o == 2) s = 2; else if (s == 2) s = 0;      // the flag lives in the object, whose address may be used again
    std::function<bool()> free_ = [o] { return W->onces[(uintptr_t)o] != 1; };
    if (W->onces[(uintptr_t)o] == 1) operation(kOnce, (uintptr_t)o, 0, "once", &free_);
    if (W->onces[(uintptr_t)o] == 2) { acquire((uintptr_t)o); return 0; }
    W->onces[(uintptr_t)o] = 1;
    try { sched_tid = quiet_.old; fn(); sched_tid = -1; } catch (...) { sched_tid = -1; W->onces[(uintptr_t)o] = 0; throw; }
    release((uintptr_t)o); W->onces[(uintptr_t)o] = 2; *(int*)o = 2;
    return 0;
  }
  REAL(int, pthread_once, pthread_once_t*, void (*)()); return f(o, fn);
}
// destructors of thread-local variables
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) {
  if (in() && my_worker) { my_worker->at_exit.push_back({fn, obj}); return 0; }
  REAL(int, __cxa_thread_atexit_impl, void (*)(void*), void*, void*); return f(fn, obj, dso);
}
// static local variables
int __cxa_guard_acquire(long long* g) {
  volatile char* b = (volatile char*)g;
  SchedQuiet quiet_;
  if (b[0]) { if (in()) acquire((uintptr_t)g); return 0; }
  if (in() && b[1]) { std::function<bool()> r = [b] { return !b[1]; }; operation(kIo, (uintptr_t)g, 0, "initialisation of a static variable", &r); if (b[0]) { acquire((uintptr_t)g); return 0; } }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* g) { volatile char* b = (volatile char*)g; if (SchedQuiet quiet_; in()) release((uintptr_t)g); b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(long long* g) { ((volatile char*)g)[1] = 0; }
// reader-writer locks
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (SchedQuiet quiet_; in()) { uintptr_t a = (uintptr_t)l; std::function<bool()> r = [a] { return W->rws[a].writer < 0; }; operation(kIo, a, 0, "read lock", &r); W->rws[a].readers.push_back(me->id); acquire(a); return 0; }
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*); return f(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (SchedQuiet quiet_; in()) { uintptr_t a = (uintptr_t)l; std::function<bool()> r = [a] { return W->rws[a].writer < 0 && W->rws[a].readers.empty(); }; operation(kIo, a, 0, "write lock", &r); W->rws[a].writer = me->id; acquire(a); return 0; }
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*); return f(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (SchedQuiet quiet_; in()) { uintptr_t a = (uintptr_t)l; operation(kIo, a, 0, "unlock", nullptr); release(a); auto& x = W->rws[a]; if (x.writer == me->id) x.writer = -1; else { auto it = std::find(x.readers.begin(), x.readers.end(), me->id); if (it != x.readers.end()) x.readers.erase(it); } return 0; }
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*); return f(l);
}
int sched_yield() { if (SchedQuiet quiet_; in()) { me->yielded = true; operation(kYield, 0, 0, "yield", nullptr); return 0; } REAL(int, sched_yield); return f(); }
int nanosleep(const struct timespec* a, struct timespec* b) { if (SchedQuiet quiet_; in()) { sleep_once(); return 0; } REAL(int, nanosleep, const struct timespec*, struct timespec*); return f(a, b); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) { if (SchedQuiet quiet_; in()) { sleep_once(); return 0; } REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*); return f(c, fl, a, b); }
int usleep(useconds_t u) { if (SchedQuiet quiet_; in()) { sleep_once(); return 0; } REAL(int, usleep, useconds_t); return f(u); }
unsigned sleep(unsigned u) { if (SchedQuiet quiet_; in()) { sleep_once(); return 0; } REAL(unsigned, sleep, unsigned); return f(u); }
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (long& x : a) x = va_arg(ap, long); va_end(ap);
  if (SchedQuiet quiet_; n == SYS_futex && in()) {
    int op = (int)a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME); uintptr_t addr = (uintptr_t)a[0];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      operation(kIo, addr, 0, "futex wait", nullptr);
      if (*(volatile int*)addr != (int)a[2]) { errno = EAGAIN; return -1; }
      me->signaled = false; me->timed = a[3] != 0; me->timed_out = false; W->futexes[addr].push_back(me->id);
      operation(kFutexWait, addr, 0, "futex wait", nullptr);
      auto& q = W->futexes[addr]; auto it = std::find(q.begin(), q.end(), me->id); if (it != q.end()) q.erase(it);
      acquire(addr);
      if (me->timed_out && !me->signaled) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      operation(kFutexWake, addr, 0, "futex wake", nullptr);
      release(addr);
      auto& q = W->futexes[addr]; int k = 0; while (!q.empty() && k < (int)a[2]) { W->t[(size_t)q.front()]->signaled = true; dpor_enables(me->id, q.front()); q.pop_front(); k++; }
      return k;
    }
  }
  long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
}
