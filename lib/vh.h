// Enumeration kernel shared by all harnesses: every harness walks the same finite
// sequence of cases; worker processes claim cases dynamically through a shared ticket
// counter, so the union of the workers covers the sequence exactly once.
#ifndef VH_H
#define VH_H
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

constexpr int kExitViolation = 40;
constexpr int kExitHang = 41;

struct Shared {            // one page per worker, survives a crash of the worker
  volatile long long ordinal;
  volatile int active;
  char desc[3500];
};

struct Ctx {
  bool thorough = false;
  uint64_t seed = 1;
  long long ordinal = -1;       // ordinal of the last case enumerated
  long long ticket = -1;        // ordinal this worker has claimed
  long long only = -1;
  std::vector<long long> seq;   // a sequence of cases to run again, in this order
  size_t seq_at = 0;
  int seq_fd = -1;              // every case run is recorded here
  std::atomic<long long>* tickets = nullptr;
  Shared* cur = nullptr;
  std::string out;              // result file prefix
  std::string set;              // which part of the harness's space this run enumerates
  double deadline = 1e18;
  long long skipped = 0;
  int hang_limit = 60;
  std::map<std::string, uint64_t> counters;
  std::map<std::string, uint64_t> maxima;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> distinct;
  std::unordered_set<uint64_t> states;
  std::vector<std::string> known;     // keys of known findings
  std::map<std::string, uint64_t> known_hit;
  bool this_nontrivial = false;
};

inline Ctx& ctx() { static Ctx* c = new Ctx; return *c; }
inline double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
inline bool thorough() { return ctx().thorough; }
inline uint64_t seed() { return ctx().seed; }
inline bool is_set(const char* s) { return ctx().set.empty() || ctx().set == s; }

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
  h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 32;
  return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
  return mix(h, n);
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

// ---- watchdog: one-second ticks, a case that makes no progress for hang_limit ticks is a hang
struct Dog { volatile long long last; volatile int ticks; volatile long long beat; };
inline Dog& dog() { static Dog d; return d; }
inline void on_alarm(int) {
  Dog& d = dog();
  if (d.last != d.beat) { d.last = d.beat; d.ticks = 0; return; }
  if (++d.ticks >= ctx().hang_limit) {
    const char m[] = "vh: no progress within the limit: hang\n";
    ssize_t r = ::write(2, m, sizeof m - 1); (void)r;
    _exit(kExitHang);
  }
}
inline void progress() { dog().beat = dog().beat + 1; }

inline void json_str(FILE* f, const std::string& s) {
  fputc('"', f);
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

inline void write_results(bool violated, const std::string& key, const std::string& msg) {
  Ctx& c = ctx();
  FILE* f = fopen((c.out + ".json").c_str(), "w");
  if (!f) { perror("results"); _exit(2); }
  fprintf(f, "{\"violated\": %s, \"ordinal\": %lld, \"desc\": ", violated ? "true" : "false", c.ordinal);
  json_str(f, c.cur ? c.cur->desc : "");
  fprintf(f, ", \"key\": "); json_str(f, key);
  fprintf(f, ", \"msg\": "); json_str(f, msg);
  fprintf(f, ", \"skipped\": %lld, \"enumerated\": %lld, \"distinct\": %zu", c.skipped, c.ordinal + 1, c.distinct.size());
  fprintf(f, ", \"counters\": {");
  bool first = true;
  for (auto& kv : c.counters) { fprintf(f, "%s", first ? "" : ", "); first = false; json_str(f, kv.first); fprintf(f, ": %llu", (unsigned long long)kv.second); }
  fprintf(f, "}, \"maxima\": {");
  first = true;
  for (auto& kv : c.maxima) { fprintf(f, "%s", first ? "" : ", "); first = false; json_str(f, kv.first); fprintf(f, ": %llu", (unsigned long long)kv.second); }
  fprintf(f, "}, \"known\": {");
  first = true;
  for (auto& kv : c.known_hit) { fprintf(f, "%s", first ? "" : ", "); first = false; json_str(f, kv.first); fprintf(f, ": %llu", (unsigned long long)kv.second); }
  fprintf(f, "}, \"samples\": [");
  for (size_t i = 0; i < c.samples.size(); i++) { if (i) fprintf(f, ", "); json_str(f, c.samples[i]); }
  fprintf(f, "]}\n");
  fclose(f);
  f = fopen((c.out + ".states").c_str(), "wb");
  if (f) { for (uint64_t s : c.states) fwrite(&s, 8, 1, f); fclose(f); }
}

inline void on_exit();
inline void init(int argc, char** argv) {
  atexit([] { on_exit(); });
  Ctx& c = ctx();
  const char *cur = nullptr, *tick = nullptr, *seq = nullptr;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i]; const char* v = argv[i + 1];
    if (a == "--tier") c.thorough = !strcmp(v, "thorough");
    else if (a == "--seed") c.seed = strtoull(v, 0, 10);
    else if (a == "--cur") cur = v;
    else if (a == "--tickets") tick = v;
    else if (a == "--seq") seq = v;
    else if (a == "--only") c.only = atoll(v);
    else if (a == "--out") c.out = v;
    else if (a == "--deadline") c.deadline = now() + atof(v);
    else if (a == "--hang") c.hang_limit = atoi(v);
    else if (a == "--known") c.known.push_back(v);
    else if (a == "--set") c.set = v;
    else { fprintf(stderr, "bad option %s\n", argv[i]); _exit(2); }
  }
  if (cur) {
    int fd = ::open(cur, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 4096)) { perror("cur"); _exit(2); }
    c.cur = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (c.cur == MAP_FAILED) { perror("mmap"); _exit(2); }
  } else c.cur = new Shared();
  c.cur->ordinal = -1; c.cur->active = 0; c.cur->desc[0] = 0;
  if (tick) {
    int fd = ::open(tick, O_RDWR, 0644);
    if (fd < 0) { perror("tickets"); _exit(2); }
    c.tickets = (std::atomic<long long>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if ((void*)c.tickets == MAP_FAILED) { perror("mmap"); _exit(2); }
    c.ticket = c.tickets->fetch_add(1);
  }
  if (seq) {
    FILE* f = fopen(seq, "rb"); if (!f) { perror("seq"); _exit(2); }
    for (long long o; fread(&o, 8, 1, f) == 1;) c.seq.push_back(o);
    fclose(f);
  } else if (c.only < 0 && !c.out.empty()) c.seq_fd = ::open((c.out + ".seq").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm; sa.sa_flags = SA_RESTART;
  sigaction(SIGALRM, &sa, 0);
  struct itimerval it = {{1, 0}, {1, 0}};
  setitimer(ITIMER_REAL, &it, 0);
}

inline bool begin(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline bool begin(const char* fmt, ...) {
  Ctx& c = ctx();
  c.ordinal++;
  c.cur->active = 0;
  if (c.only >= 0) { if (c.ordinal != c.only) return false; }
  else if (!c.seq.empty()) { if (c.seq_at >= c.seq.size() || c.ordinal != c.seq[c.seq_at]) return false; c.seq_at++; }
  else if (c.tickets) {
    if (c.ordinal != c.ticket) return false;
    c.ticket = c.tickets->fetch_add(1);
  }
  if (now() > c.deadline) { c.skipped++; return false; }
  va_list ap; va_start(ap, fmt);
  vsnprintf(c.cur->desc, sizeof c.cur->desc, fmt, ap);
  va_end(ap);
  c.cur->ordinal = c.ordinal;
  c.cur->active = 1;
  c.counters["cases"]++;
  if (c.seq_fd >= 0) { ssize_t r = ::write(c.seq_fd, &c.ordinal, 8); (void)r; }
  progress();
  if (c.samples.size() < 3) c.samples.push_back(c.cur->desc);
  return true;
}

// true once a long case should be abandoned (counted as skipped, never as a violation)
inline bool abandon() { Ctx& c = ctx(); if (now() < c.deadline + 60) return false; c.skipped++; return true; }
inline void count(const char* k, uint64_t n = 1) { ctx().counters[k] += n; }
inline void maximum(const char* k, uint64_t n) { auto& m = ctx().maxima[k]; if (n > m) m = n; }
inline void evals(uint64_t n = 1) { static uint64_t& r = ctx().counters["evaluations"]; r += n; }
inline void transitions(uint64_t n = 1) { static uint64_t& r = ctx().counters["transitions"]; r += n; }
inline void traces(uint64_t n = 1) { static uint64_t& r = ctx().counters["traces"]; r += n; }
inline void state(uint64_t h) { Ctx& c = ctx(); if (c.states.size() < 4000000) c.states.insert(h); }
inline void distinct(uint64_t h) { Ctx& c = ctx(); if (c.distinct.size() < 4000000) c.distinct.insert(h); }
inline void distinct_case() { distinct(hash_str(ctx().cur->desc)); }
inline void sample(const std::string& s) { Ctx& c = ctx(); if (c.samples.size() < 6) c.samples.push_back(s); }

// A violation that matches a known finding is counted and tolerated; any other ends the worker.
inline bool report(const std::string& key, const std::string& msg) {
  Ctx& c = ctx();
  for (auto& k : c.known) if (k == key) { c.known_hit[key]++; return false; }
  fprintf(stderr, "VIOLATED case %lld [%s]: %s%s%s\n", c.ordinal, c.cur->desc, key.c_str(), key.empty() ? "" : ": ", msg.c_str());
  write_results(true, key, msg);
  fflush(stderr);
  _exit(kExitViolation);
}
inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail(const char* fmt, ...) {
  char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  report("", b);
}
#define VCHECK(cond, ...) do { if (!(cond)) ::vh::fail(__VA_ARGS__); } while (0)

// the worker itself ends with _exit: a regular exit is the code under test ending the process
inline void on_exit() { if (ctx().cur && ctx().cur->active) fail("the code under test ends the process"); }
inline int finish() {
  ctx().cur->active = 0;
  write_results(false, "", "");
  fflush(stdout); fflush(stderr);
  _exit(0);
}
inline void die(const char* fmt, ...) {   // harness error, never a violation
  va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
  fputc('\n', stderr); _exit(2);
}

// Mixed-radix enumeration helper: for (Radix r({3,2,5}); r.ok(); r.next()) r[i]
struct Radix {
  std::vector<int> base, d; bool good = true;
  explicit Radix(std::vector<int> b) : base(b), d(b.size(), 0) { for (int x : b) if (x <= 0) good = false; }
  bool ok() const { return good; }
  void next() { for (size_t i = 0; i < d.size(); i++) { if (++d[i] < base[i]) return; d[i] = 0; } good = false; }
  int operator[](size_t i) const { return d[i]; }
  std::string str() const { std::string s; for (int x : d) { s += (s.empty() ? "" : ","); s += std::to_string(x); } return s; }
};

// All sizes in [lo,hi] at which a block, chunk, buffer or counter of a round size would end: powers of two and
// ten, one and a half powers of two, small multiples of round sizes, each with its neighbours.
inline std::vector<long> sizes(long lo, long hi, bool multiples = true) {
  std::vector<char> in((size_t)(hi + 2), 0);
  auto put = [&](long x) { for (long y = x - 1; y <= x + 1; y++) if (y >= lo && y <= hi) in[(size_t)y] = 1; };
  for (long p = 1; p <= hi + 1; p *= 2) { put(p); put(p + p / 2); }
  for (long p = 10; p <= hi + 1; p *= 10) put(p);
  if (multiples) { for (long b : {64L, 1000L, 1024L, 4096L, 16384L, 65536L}) for (long k = 1; k <= 5; k++) if (b * k <= hi + 1) put(b * k); }
  std::vector<long> r; for (long x = lo; x <= hi; x++) if (in[(size_t)x]) r.push_back(x);
  return r;
}

}  // namespace vh
#endif
