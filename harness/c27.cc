// C27: the experiment programs as they are (their own main), one controlled thread per party, over the
// simulated kernel. PROGRAM: 0 input, 1 multiplication, 2 check.
#include <setjmp.h>
#include <spawn.h>
#include <sys/wait.h>
#include <iostream>
#include <sstream>
#include "netsim.h"
#include "netprog.h"
using namespace prog;
#ifndef PROGRAM
#define PROGRAM 0
#endif
extern "C" int program_main(int, char**) asm("main");
static bool g_probe; static int g_exit_status = -1;
extern "C" void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
  (void)fn; if (g_probe) _exit(61);
  vh::fail("assertion %s fails (%s:%u), party %d | schedule: %s", e, file, line, sched::group(), sched::schedule().c_str());
  _exit(2);
}
// what each party prints
struct Capture : std::streambuf {
  std::string text[20];
  std::string& mine() { int g = sched::controlled() ? sched::group() : 19; return text[g < 0 || g > 19 ? 19 : g]; }
  int overflow(int c) override { if (c != EOF) mine().push_back((char)c); return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { mine().append(s, (size_t)n); return n; }
};
static Capture* g_out;
static int g_ended[20], g_result[20];
static std::string name() { return PROGRAM == 0 ? "input" : PROGRAM == 1 ? "multiplication" : "check"; }
static jmp_buf g_left[20];
static void start(int id, int n, long count) {
  std::string a[4] = {"program.x", std::to_string(n), std::to_string(id), std::to_string(count)}; char* v[5]; for (int i = 0; i < 4; i++) v[i] = &a[i][0]; v[4] = nullptr;
  if (!setjmp(g_left[id])) g_result[id] = program_main(4, v);
  g_ended[id] = 1; vk::end_process(id);
}
static void probe_result(int r) {
  if (vk::calls(vk::kSocket)) _exit(51);
  if (r) _exit(62);
  auto& t = g_out->text[0]; ssize_t k = ::write(1, t.data(), t.size()); (void)k;
  _exit(52);
}
// the program ends its process
static void leave_process(int status) {
  if (g_probe) { probe_result(status); }
  int id = sched::group(); g_result[id] = status; g_ended[id] = 1; vk::end_process(id); sched::end_process(); longjmp(g_left[id], 1);
}
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int s) { if (sched::controlled()) leave_process(s); __real_exit(s); }
extern "C" void __wrap_quick_exit(int s) { if (sched::controlled()) leave_process(s); __real_exit(s); }
typedef std::map<int, std::pair<uint64_t, uint64_t>> Table;
static Table parse(const std::string& text, int id, int n, int* timings) {
  std::istringstream in(text); std::string line; Table t; int heads = 0; *timings = 0;
  while (std::getline(in, line)) {
    unsigned a; unsigned long long x, y; int end = 0; char w[100];
    if (sscanf(line.c_str(), "communication summary for %u:%n", &a, &end) == 1 && end) { heads++; if ((int)a != id) vh::fail("party %d prints a summary for party %u", id, a); continue; }
    std::pair<uint64_t, uint64_t> v; bool l = false; end = 0;
    if (sscanf(line.c_str(), "sent/received to/from %u: %llu/%llu bytes%n", &a, &x, &y, &end) == 3 && end) v = {x, y}, l = true;
    else if (sscanf(line.c_str(), "sent to %u: %llu bytes%n", &a, &x, &end) == 2 && end) v = {x, 0}, l = true;
    else if (sscanf(line.c_str(), "received from %u: %llu bytes%n", &a, &y, &end) == 2 && end) v = {0, y}, l = true;
    else if (sscanf(line.c_str(), "%90[A-Za-z0-9_]: %llu us%n", w, &x, &end) == 2 && end == (int)line.size()) { ++*timings; continue; }
    if (l) { if ((int)a >= n || t.count((int)a)) vh::fail("party %d of %d prints the line \"%s\"", id, n, line.c_str()); t[(int)a] = v; }
  }
  if (heads != 1) vh::fail("party %d prints %d communication summaries | schedule: %s", id, heads, sched::schedule().c_str());
  return t;
}
static void play(int n, long count, std::vector<int> lazy, sched::Options o, vk::Config k) {
  // what the protocols exchange, from an execution of the library over the in-memory network
  Plan p; p.n = n; p.d = (n - 1) / 3; p.phases = PROGRAM == 0 ? kInput : PROGRAM == 1 ? kMult : kMult | kCheck; p.keys = kDefault;
  if (PROGRAM == 0) p.owners.assign((size_t)count, 0); else p.batches = {(int)count};
  std::vector<Table> want((size_t)n);
  { mem::World w(n); auto* old = std::cout.rdbuf(nullptr); std::string e = w.run([&](int id) { program(mem::net(id, n, p.d, w), p, manipulators(n, p.d)[(size_t)id]); }); std::cout.rdbuf(old); std::cout.clear();
    if (!e.empty()) vh::fail("sequential execution: %s", e.c_str());
    for (auto& m : w.log) { uint64_t b = m.v.size() * (m.kind == mem::kBytes ? 1 : 8); if (b) want[(size_t)m.from][m.to].first += b, want[(size_t)m.to][m.from].second += b; } }
  ns::Spec s; s.n = n; s.o = o; s.k = k; s.lazy = lazy; s.scope = ns::kAll;
  s.before = [&] { for (auto& t : g_out->text) t.clear(); memset(g_ended, 0, sizeof g_ended); };
  s.party = [&](int me) { start(me, n, count); };
  s.after = [&] {
    std::vector<Table> t;
    for (int i = 0; i < n; i++) {
      if (!g_ended[i] || g_result[i]) vh::fail("party %d ends with status %d | schedule: %s", i, g_result[i], sched::schedule().c_str());
      int timings; t.push_back(parse(g_out->text[i], i, n, &timings));
      if (!timings) vh::fail("party %d reports no elapsed times", i);
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      if (t[(size_t)i][j].first != t[(size_t)j][i].second) vh::fail("party %d reports %llu bytes sent to party %d, which reports %llu received from it | schedule: %s", i, (unsigned long long)t[(size_t)i][j].first, j, (unsigned long long)t[(size_t)j][i].second, sched::schedule().c_str());
      if (t[(size_t)i][j].first != want[(size_t)i][j].first) vh::fail("party %d reports %llu bytes sent to party %d, the protocol sends %llu", i, (unsigned long long)t[(size_t)i][j].first, j, (unsigned long long)want[(size_t)i][j].first);
    }
    std::string x = vk::stray(); if (!x.empty()) vh::fail("%s | schedule: %s", x.c_str(), sched::schedule().c_str());
  };
  ns::run(s); vh::distinct_case();
}
// One start of the program with the given arguments, in a process of its own: 50 it waits for its peers,
// 52 it ended without opening a socket (standard output printed), anything else: refused.
static int probe(int argc, char** argv) {
  g_probe = true; g_out = new Capture; std::cout.rdbuf(g_out); vh::ctx().cur = new vh::Shared();
  sched::Options o; o.deviations = 0; o.expect_deadlock = true; int r = 0;
  sched::explore(o, [&] { vk::reset({}); sched::spawn([&] {
    try { r = program_main(argc, argv); } catch (const sched::Aborted&) { _exit(50); } catch (...) { _exit(60); }
  }, "program"); }, [&] { if (sched::deadlocked()) _exit(50); });
  probe_result(r); return 0;
}
static int launch(const std::vector<std::string>& args, std::string* out) {
  int fd[2]; if (pipe(fd)) vh::die("pipe");
  std::vector<std::string> a = {"harness", "--probe"}; a.insert(a.end(), args.begin(), args.end());
  std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, fd[1], 1); posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  posix_spawn_file_actions_addclose(&fa, fd[0]); posix_spawn_file_actions_addclose(&fa, fd[1]);
  pid_t pid; if (posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, v.data(), environ)) vh::die("spawn"); posix_spawn_file_actions_destroy(&fa);
  close(fd[1]); char b[4096]; ssize_t k; out->clear();
  while ((k = read(fd[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) { out->append(b, (size_t)k); vh::progress(); }
  close(fd[0]); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static int harness_main(int argc, char** argv, char**) {
  if (argc > 1 && !strcmp(argv[1], "--probe")) return probe(argc - 1, argv + 1);
  vh::init(argc, argv); bool th = vh::thorough(), race = race_run_begin != nullptr;
  g_out = new Capture; std::cout.rdbuf(g_out);
  std::string nm = name();
  // every schedule up to the bound, four parties
  for (long count : {1, 2, 0}) for (int pol = 0; pol < 5; pol++) { int buckets = 8; for (int bu = 0; bu < buckets; bu++) {
    bool deep = th || !race || (count == 1 && pol == 0);
    if (!deep && bu) continue;
    if (race && (count == 0 || (!th && pol > 1))) continue;
    if (!vh::begin("%s program, 4 parties, count %ld, %s, share %d", nm.c_str(), count, ns::policy_name(pol), bu)) continue;
    sched::Options o; o.policy = pol; o.deviations = deep ? 1 : 0; o.bucket = deep ? bu : 0; o.buckets = deep ? buckets : 1; o.idle_wakes = 8;
    play(4, count, {}, o, {});
  } }
  if (race) vh::finish();
  // every order of starting, the next party starts when the others can go no further; small streams
  { std::vector<int> perm = {0, 1, 2, 3}; do for (int cap : {0, 9}) for (int pol = 0; pol < 5; pol++) {
    if (!vh::begin("%s program, parties started in the order %d%d%d%d, streams hold %d, %s", nm.c_str(), perm[0], perm[1], perm[2], perm[3], cap, ns::policy_name(pol))) continue;
    std::vector<int> lazy(4); for (int i = 0; i < 4; i++) lazy[(size_t)perm[(size_t)i]] = 3 * i; sched::Options o; o.policy = pol; o.deviations = 0; o.idle_wakes = 20; vk::Config k; k.cap = (size_t)cap; k.short_io = cap > 0; o.env = cap && th ? 1 : 0;
    play(4, 3, lazy, o, k);
  } while (std::next_permutation(perm.begin(), perm.end())); }
  // more parties, larger counts
  for (int n = 4; n <= (th ? 10 : 9); n++) for (long count : {0, 1, 7, 100}) for (int pol = 0; pol < 5; pol++) for (int bu = 0; bu < 8; bu++) {
    if (n > 7 && count > 1 && (pol || !th)) continue;
    bool deep = n == 5 && count == 1 && (th || !pol); if (!deep && bu) continue;
    if (!vh::begin("%s program, %d parties, count %ld, %s, share %d", nm.c_str(), n, count, ns::policy_name(pol), bu)) continue;
    sched::Options o; o.policy = pol; o.deviations = deep; o.bucket = bu; o.buckets = deep ? 8 : 1; o.steps = 3000000; play(n, count, {}, o, {});
  }
  // arguments
  std::vector<std::vector<std::string>> few = {{}, {"4"}, {"4", "0"}, {"0"}, {"x", "y"}};
  for (auto& a : few) {
    std::string d; for (auto& x : a) d += " " + x;
    if (!vh::begin("%s program with arguments:%s", nm.c_str(), d.c_str())) continue;
    std::string out; int r = launch(a, &out); if (r != 52 || out.compare(0, 6, "usage:")) vh::fail("with %zu arguments the program does not just print its usage (%d, \"%s\")", a.size(), r, out.c_str());
    vh::evals(); vh::distinct_case();
  }
  struct Args { std::string n, id, count; int ok; };
  std::vector<Args> as;
  for (int n = 0; n <= 40; n++) if (n < 4 || n > 16) as.push_back({std::to_string(n), "0", "1", 0});
  for (std::string n : {"-1", "-4", "4294967300", "18446744073709551615", "256", "260", "65540"}) as.push_back({n, "0", "1", 0});
  for (int n = 4; n <= 16; n++) {
    for (int id = n; id <= n + 3; id++) as.push_back({std::to_string(n), std::to_string(id), "1", 0});
    for (std::string id : {"-1", "17", "256", "4294967296", "18446744073709551615"}) as.push_back({std::to_string(n), id, "1", 0});
    if (n <= (PROGRAM ? 12 : 16)) for (int id = 0; id < n; id++) as.push_back({std::to_string(n), std::to_string(id), "1", 1});
  }
  as.push_back({"4", "0", PROGRAM ? "100000" : "1000000", 0}); as.push_back({"4", "0", "-1", 0}); as.push_back({"4", "3", "18446744073709551615", 0});
  for (auto& a : as) {
    if (!vh::begin("%s program started as party %s of %s, count %s", nm.c_str(), a.id.c_str(), a.n.c_str(), a.count.c_str())) continue;
    std::string out; int r = launch({a.n, a.id, a.count}, &out);
    if (a.ok && r != 50) vh::fail("a valid start does not lead to waiting for the peers (%d)", r);
    if (!a.ok && (r == 50 || r == 51 || r == 52)) vh::fail("the program is not refused (%s)", r == 50 ? "it waits for its peers" : r == 51 ? "it opens sockets" : "it ends as if all was well");
    vh::evals(); vh::distinct_case();
  }
  vh::finish();
  return 0;
}
// the executable's main is the program's; the harness comes in before it
extern "C" int __real___libc_start_main(int (*)(int, char**, char**), int, char**, void (*)(), void (*)(), void (*)(), void*);
extern "C" int __wrap___libc_start_main(int (*)(int, char**, char**), int argc, char** argv, void (*init)(), void (*fini)(), void (*rtld)(), void* end) {
  return __real___libc_start_main(harness_main, argc, argv, init, fini, rtld, end);
}
