// C17: every interleaving (partial-order reduced) of producers and one consumer on the real queue,
// with spurious wake-ups; each history is checked for linearizability against a FIFO queue.
#include <memory>
#include <thread>
#include "frn/lib/net/shared_deque.h"
#include "vsched.h"
#include "vh.h"
#define QUIET __attribute__((no_sanitize("thread")))

enum Op { kCopy, kMove, kSize, kFront, kPop };
static const char* kName = "cmsfp";
struct Ev { int thread, op; int value; long begin, end; };
static bool g_marks = true; static Ev g_ev[64]; static int g_n; static long g_clock;
QUIET static int begin_op(int t, int op) { if (g_marks) sched::mark(false); int i = g_n++; g_ev[i] = {t, op, -1, ++g_clock, 1L << 60}; return i; }
QUIET static void end_op(int i, int v) { if (g_marks) sched::mark(true); g_ev[i].value = v; g_ev[i].end = ++g_clock; }

// exhaustive search for a sequential order of the operations that respects real time
static bool linear(unsigned done, std::vector<int>& q, const std::vector<Ev>& ev) {
  int n = (int)ev.size();
  if (done == (1u << n) - 1) return true;
  long first_end = 1L << 60; for (int i = 0; i < n; i++) if (!(done >> i & 1)) first_end = std::min(first_end, ev[i].end);
  for (int i = 0; i < n; i++) {
    if (done >> i & 1 || ev[i].begin > first_end) continue;
    std::vector<int> r = q;
    switch (ev[i].op) {
      case kCopy: case kMove: r.push_back(ev[i].value); break;
      case kSize: if ((int)r.size() != ev[i].value) continue; break;
      case kFront: if (r.empty() || r.front() != ev[i].value) continue; break;
      case kPop: if (r.empty()) continue; r.erase(r.begin()); break;
    }
    if (linear(done | 1u << i, r, ev)) return true;
  }
  return false;
}
static std::string show(const std::vector<Ev>& ev) { std::string s; for (auto& e : ev) s += " T" + std::to_string(e.thread) + ":" + (e.op <= kMove ? "push" : e.op == kSize ? "size" : e.op == kFront ? "front" : "pop") + (e.op == kPop ? "" : "(" + std::to_string(e.value) + ")") + "[" + std::to_string(e.begin) + "," + (e.end > 1L << 50 ? "-" : std::to_string(e.end)) + "]"; return s; }

template <class T> struct Val;
template <> struct Val<std::vector<unsigned char>> { static std::vector<unsigned char> make(int v) { return std::vector<unsigned char>((size_t)(v % 5), (unsigned char)v).size() ? std::vector<unsigned char>((size_t)(v % 5) + 1, (unsigned char)v) : std::vector<unsigned char>(1, (unsigned char)v); } static int get(const std::vector<unsigned char>& x) { if (x.empty()) return -2; for (unsigned char c : x) if (c != x[0]) return -3; return x[0]; } };
template <> struct Val<int> { static int make(int v) { return v; } static int get(int v) { return v; } };

template <class T> static void act(frn::lib::net::SharedDeque<T>& q, int t, int op, int v) {
  int i = begin_op(t, op); int r = -1;
  switch (op) {
    case kCopy: { T x = Val<T>::make(v); q.PushBack(x); r = v; break; }
    case kMove: q.PushBack(Val<T>::make(v)); r = v; break;
    case kSize: r = (int)q.Size(); break;
    case kFront: { T x = q.Front(); r = Val<T>::get(x); break; }
    case kPop: q.PopFront(); break;
  }
  end_op(i, r);
}
static uint64_t g_runs;
// scripts: one per thread, the last one is the consumer's
template <class T> static void scenario(const std::vector<std::vector<int>>& scripts, bool spurious, bool dpor, std::vector<uint64_t>* outcomes = nullptr) {
  static std::unique_ptr<frn::lib::net::SharedDeque<T>> q;
  sched::Options o; o.dpor = dpor; o.full = !dpor; o.spurious = spurious; o.env = spurious ? 1 : 0;
  int next = 1;
  auto st = sched::explore(o, [&] {
    q.reset(new frn::lib::net::SharedDeque<T>); g_n = 0; g_clock = 0; next = 1;
    for (size_t t = 0; t < scripts.size(); t++) {
      std::vector<std::pair<int, int>> ops; for (int op : scripts[t]) ops.push_back({op, op <= kMove ? next++ : 0});
      sched::spawn([t, ops] { for (auto& p : ops) act<T>(*q, (int)t, p.first, p.second); }, t + 1 == scripts.size() ? "consumer" : "producer" + std::to_string(t));
    }
  }, [&] {
    std::vector<Ev> ev(g_ev, g_ev + g_n);
    // what remains is taken out afterwards
    int left = (int)q->Size(); long c = g_clock;
    ev.push_back({9, kSize, left, c + 1, c + 2}); c += 2;
    for (int i = 0; i < left; i++) { int v = Val<T>::get(q->Front()); q->PopFront(); ev.push_back({9, kFront, v, c + 1, c + 2}); ev.push_back({9, kPop, -1, c + 3, c + 4}); c += 4; }
    if ((int)q->Size() != 0) vh::fail("the queue reports %zu elements after %d were removed", q->Size(), left);
    std::vector<int> e0;
    if (!linear(0, e0, ev)) vh::fail("no sequential FIFO history explains:%s | schedule: %s", show(ev).c_str(), sched::schedule().c_str());
    std::stable_sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.thread < b.thread; });
    uint64_t h = 3; if (g_marks) for (auto& e : ev) for (auto& f : ev) h = vh::mix(h, e.end < f.begin);
    for (auto& e : ev) h = vh::mix(h, (uint64_t)(e.thread * 100000 + e.op * 1000 + e.value));
    vh::state(h); if (outcomes) outcomes->push_back(h); vh::evals();
  });
  vh::transitions(st.steps); vh::traces(st.runs); vh::maximum("executions in one scenario", st.runs); vh::maximum("longest execution (decisions)", st.depth); vh::count("redundant executions", st.redundant);
  vh::distinct(vh::ctx().ordinal * 2 + spurious);
  g_runs = st.runs;
}
// a queue that already went through `in` insertions and `out` removals; then a producer and the consumer run together
template <class T> static void aged(long in, long out, int pushes, int size_at_end) {
  static std::unique_ptr<frn::lib::net::SharedDeque<T>> q; static int got[16]; static int n; static long seen_size;
  sched::Options o; o.dpor = true;
  auto want = [](long i) { return (int)(i % 211) + 1; };
  auto st = sched::explore(o, [&] {
    q.reset(new frn::lib::net::SharedDeque<T>); n = 0; seen_size = -1;
    for (long i = 0; i < in; i++) { if (i & 1) { T x = Val<T>::make(want(i)); q->PushBack(x); } else q->PushBack(Val<T>::make(want(i))); if (i < out) q->PopFront(); }
    sched::spawn([=] { for (int k = 0; k < pushes; k++) { if ((in + k) & 1) { T x = Val<T>::make(want(in + k)); q->PushBack(x); } else q->PushBack(Val<T>::make(want(in + k))); } if (size_at_end) seen_size = (long)q->Size(); }, "producer");
    sched::spawn([=] { for (int k = 0; k < 2; k++) { T x = q->Front(); got[n++] = Val<T>::get(x); q->PopFront(); } T& y = q->Front(); got[n++] = Val<T>::get(y); }, "consumer");
  }, [&] {
    for (int k = 0; k < 3; k++) VCHECK(got[k] == want(out + k), "after %ld insertions and %ld removals, the consumer's element %d is %d, not %d | schedule: %s", in, out, k, got[k], want(out + k), sched::schedule().c_str());
    VCHECK((long)q->Size() == in + pushes - out - 2, "the queue holds %zu elements instead of %ld", q->Size(), in + pushes - out - 2);
    if (size_at_end) VCHECK(seen_size <= in + pushes - out && seen_size >= in + pushes - out - 2, "the producer is told that there are %ld elements", seen_size);
    for (long i = out + 2; i < in + pushes; i++) { int v = Val<T>::get(q->Front()); q->PopFront(); VCHECK(v == want(i), "after %ld insertions and %ld removals, element %ld is %d, not %d | schedule: %s", in, out, i, v, want(i), sched::schedule().c_str()); }
    vh::state(vh::mix(vh::mix(7, (uint64_t)in * 100000 + (uint64_t)out), sched::trace_hash())); vh::evals();
  });
  vh::transitions(st.steps); vh::traces(st.runs); vh::distinct_case();
}
static std::string str(const std::vector<std::vector<int>>& s) { std::string r; for (auto& x : s) { r += r.empty() ? "" : "|"; for (int o : x) r += kName[o]; } return r; }

int main(int argc, char** argv) {
  vh::init(argc, argv); bool th = vh::thorough();
  // the reduction itself is checked: same set of outcomes as exploring without it
  struct Self { bool marks; std::vector<std::vector<int>> s; };
  for (auto& c : std::vector<Self>{{true, {{kCopy}, {kFront, kPop}}}, {true, {{kCopy, kMove}, {kPop}}}, {true, {{kMove}, {kSize, kPop}}}, {false, {{kCopy, kMove}, {kFront, kPop}}}, {false, {{kSize}, {kMove}, {kFront}}}}) {
    if (!vh::begin("reduction agrees with full enumeration: %s%s", str(c.s).c_str(), c.marks ? "" : " (values only)")) continue;
    g_marks = c.marks;
    std::vector<uint64_t> a, b; scenario<int>(c.s, false, true, &a); uint64_t ra = g_runs; scenario<int>(c.s, false, false, &b);
    g_marks = true;
    std::sort(a.begin(), a.end()); a.erase(std::unique(a.begin(), a.end()), a.end()); std::sort(b.begin(), b.end()); b.erase(std::unique(b.begin(), b.end()), b.end());
    vh::maximum("full enumeration", g_runs); vh::maximum("reduced enumeration", ra);
    if (a != b && !vh::abandon()) vh::die("reduction loses outcomes: %zu of %zu", a.size(), b.size());
  }
  // producers' scripts
  std::vector<std::vector<std::vector<int>>> prods;
  std::vector<std::vector<int>> one;       // scripts of 1..2 (3) operations with at least one push
  for (int len = 1; len <= (th ? 3 : 2); len++) for (vh::Radix r(std::vector<int>((size_t)len, 3)); r.ok(); r.next()) { int p = 0; for (int x : r.d) p += x <= kMove; if (p) one.push_back(r.d); }
  for (auto& a : one) prods.push_back({a});
  for (auto& a : one) for (auto& b : one) if (a <= b && a.size() + b.size() <= (th ? 4 : 3)) prods.push_back({a, b});
  prods.push_back({{kCopy}, {kMove}, {kCopy}}); if (th) prods.push_back({{kCopy, kMove}, {kMove}, {kCopy}});
  for (auto& pr : prods) {
    int pushes = 0, plen = 0; for (auto& s : pr) { plen += (int)s.size(); for (int o : s) pushes += o <= kMove; }
    for (int len = 1; len <= (th ? 5 : 4); len++) for (vh::Radix r(std::vector<int>((size_t)len, 3)); r.ok(); r.next()) {
      std::vector<int> c; int pops = 0; bool ok = true, any = false;
      for (int x : r.d) { int o = x + kSize; c.push_back(o); if (o == kPop) { pops++; any = true; ok = ok && pops <= pushes; } if (o == kFront) { any = true; ok = ok && pops < pushes; } }
      if (!ok || !any || plen + len > (th ? 8 : 6)) continue;
      auto s = pr; s.push_back(c);
      for (int sp = 0; sp < 2; sp++) {
        if (!th && sp && pr.size() > 1 && plen + len > 5) continue;
        if (!vh::begin("%s%s", str(s).c_str(), sp ? " with a spurious wake-up" : "")) continue;
        if (s.size() % 2) scenario<std::vector<unsigned char>>(s, sp, true); else scenario<int>(s, sp, true);
      }
    }
  }
  // queues of any length and past, so that whatever is done once in a while (more room, wrapping around) is done
  // while the consumer uses an element
  for (long in : vh::sizes(3, th ? 70000 : 5000)) for (long out : {0L, 1L, in / 2, in - 2, in - 1, in}) for (int pushes = 1; pushes <= (th ? 3 : 2); pushes++) {
    if (out < 0 || in + pushes - out < 3 || (out == 1 && in <= 2) || (in > 300 && out != 0 && out != in - 1 && out != in / 2)) continue;
    if (!vh::begin("after %ld insertions and %ld removals, %d more while two are taken", in, out, pushes)) continue;
    if (in % 2) aged<std::vector<unsigned char>>(in, out, pushes, pushes == 1); else aged<int>(in, out, pushes, pushes == 1);
    if (in < 300) { if (in % 2) aged<int>(in, out, pushes, 0); else aged<std::vector<unsigned char>>(in, out, pushes, 0); }
  }
  vh::finish();
}
