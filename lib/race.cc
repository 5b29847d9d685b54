// Happens-before race detection on the memory-access callbacks of -fsanitize=thread, without its
// runtime: vector clocks per thread and synchronisation object, up to four (or more) remembered
// accesses per 8 bytes. Also reports accesses to freed heap memory: memory freed during an execution
// is only reused after it. Every report is exact for the execution: no sampling, no time-outs.
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <unordered_map>
#include <vector>

#include "vsched.h"
#include "vh.h"

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
extern char __executable_start;
}
extern thread_local int sched_tid;       // sched.cc: number of the controlled thread, or -1
namespace {
constexpr int NT = 96;
struct VC { uint32_t c[NT]; VC() { memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < NT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Acc { uint32_t clk; uint32_t pc; uint8_t tid, mask, write, atomic; };    // clk 0: empty; write 2: freed
struct Cell { Acc a[4]; };
struct Page { uintptr_t no; uint64_t gen; Cell c[512]; };
bool g_on = false; uint64_t g_gen = 1;
thread_local bool g_inside = false;
VC* g_vc = nullptr;
std::unordered_map<uintptr_t, VC>* g_sync = nullptr;
std::vector<void*>* g_quarantine = nullptr;
std::unordered_map<uintptr_t, std::vector<Acc>>* g_more = nullptr;
// open addressing table of pages
Page** g_tab = nullptr; size_t g_cap = 0, g_used = 0; Page* g_free = nullptr;   // free pages are linked through their first cell
thread_local Page* g_last = nullptr;
Page* page(uintptr_t no, bool create) {
  if (g_last && g_last->no == no && g_last->gen == g_gen) return g_last;
  if (!g_tab) { g_cap = 1 << 16; g_tab = (Page**)__libc_calloc(g_cap, sizeof(Page*)); }
  size_t h = (no * 0x9E3779B97F4A7C15ULL) >> 40;
  for (size_t i = h & (g_cap - 1);; i = (i + 1) & (g_cap - 1)) {
    Page* p = g_tab[i];
    if (!p) {
      if (!create) return nullptr;
      if (++g_used * 2 > g_cap) vh::die("race: too many pages");
      if (g_free) { p = g_free; g_free = *(Page**)p->c; } else p = (Page*)__libc_malloc(sizeof(Page));
      g_tab[i] = p; p->no = no; p->gen = 0;
    }
    if (p->no == no) {
      if (p->gen != g_gen) { if (!create) return nullptr; memset(p->c, 0, sizeof p->c); p->gen = g_gen; }
      g_last = p; return p;
    }
  }
}
std::string where(uint32_t pc) {
  char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n <= 0) return "?"; exe[n] = 0;
  char cmd[800]; snprintf(cmd, sizeof cmd, "addr2line -Cfpse '%s' 0x%x 2>/dev/null", exe, pc ? pc - 1 : 0);
  FILE* f = popen(cmd, "r"); if (!f) return "?"; char b[400] = ""; if (!fgets(b, sizeof b, f)) b[0] = 0; pclose(f);
  b[strcspn(b, "\n")] = 0; return b;
}
void report(uintptr_t addr, const Acc& o, int tid, uint32_t pc, int write) {
  g_on = false;
  std::string a = where(pc), b = where(o.pc), s = sched::schedule();
  if (o.write == 2) vh::fail("use of freed memory: %s by thread %d at %s; freed by thread %d at %s | schedule: %s", write ? "write" : "read", tid, a.c_str(), o.tid, b.c_str(), s.c_str());
  vh::fail("data race: %s by thread %d at %s is not ordered with the %s by thread %d at %s | schedule: %s", write == 2 ? "free" : write ? "write" : "read", tid, a.c_str(), o.write ? "write" : "read", o.tid, b.c_str(), s.c_str());
}
inline void access8(uintptr_t granule, uint8_t mask, int write, bool atomic, uint32_t pc) {
  int tid = sched_tid; VC& me = g_vc[tid];
  Page* p = page(granule >> 9, true);
  Cell& c = p->c[granule & 511];
  uint32_t clk = me.c[tid] + 1;
  int free_slot = -1; bool stored = false;
  for (int i = 0; i < 4; i++) {
    Acc& o = c.a[i];
    if (!o.clk) { if (free_slot < 0) free_slot = i; continue; }
    if (!(o.mask & mask)) continue;
    if (o.write == 2 && write != 2) report(granule * 8, o, tid, pc, write);
    if (o.tid == tid) {
      if (o.mask == mask && o.atomic == atomic && (o.write == write || (!o.write && write) )) { o.clk = clk; o.pc = pc; o.write = (uint8_t)write; stored = true; }
      else if (o.mask == mask && o.atomic == atomic && o.write && !write && o.clk == clk) stored = true;
      continue;
    }
    bool before = o.clk <= me.c[o.tid];
    if (!before && (write || o.write) && !(atomic && o.atomic)) report(granule * 8, o, tid, pc, write);
    if (before && (o.mask & ~mask) == 0 && !atomic && (write || !o.write)) { o.clk = 0; if (free_slot < 0) free_slot = i; }   // subsumed by this access
  }
  if (g_more && !g_more->empty()) {
    auto it = g_more->find(granule);
    if (it != g_more->end()) for (auto& o : it->second) {
      if (!(o.mask & mask) || o.tid == tid) continue;
      if (o.clk > me.c[o.tid] && (write || o.write) && !(atomic && o.atomic)) report(granule * 8, o, tid, pc, write);
    }
  }
  if (stored) return;
  Acc n{clk, pc, (uint8_t)tid, mask, (uint8_t)write, (uint8_t)atomic};
  if (free_slot >= 0) c.a[free_slot] = n; else (*g_more)[granule].push_back(n);
}
inline void access(const void* ptr, size_t n, int write, bool atomic, void* ret) {
  if (!g_on || sched_tid < 0 || g_inside) return;
  g_inside = true;
  uintptr_t a = (uintptr_t)ptr; uint32_t pc = (uint32_t)((uintptr_t)ret - (uintptr_t)&__executable_start);
  while (n) {
    uintptr_t g = a >> 3; unsigned off = a & 7, k = (unsigned)(n < 8 - off ? n : 8 - off);
    access8(g, (uint8_t)(((1u << k) - 1) << off), write, atomic, pc);
    a += k; n -= k;
  }
  g_inside = false;
}
void forget(uintptr_t a, size_t n) {       // fresh memory: no earlier access counts
  uintptr_t g = a >> 3, e = (a + n + 7) >> 3;
  while (g < e) {
    Page* p = page(g >> 9, false); uintptr_t next = ((g >> 9) + 1) << 9; uintptr_t stop = next < e ? next : e;
    if (p) memset(&p->c[g & 511], 0, (stop - g) * sizeof(Cell));
    g = stop;
  }
  if (g_more && !g_more->empty()) for (auto it = g_more->begin(); it != g_more->end();) { if (it->first >= (a >> 3) && it->first < e) it = g_more->erase(it); else ++it; }
}
struct Inside { bool old; Inside() : old(g_inside) { g_inside = true; } ~Inside() { g_inside = old; } };
bool active() { return g_on && sched_tid >= 0 && !g_inside; }
}  // namespace

extern "C" {
void race_memory(const void* p, size_t n, int write) { access(p, n, write, false, __builtin_return_address(0)); }
void race_run_begin() {
  if (!g_vc) { g_vc = new VC[NT]; g_sync = new std::unordered_map<uintptr_t, VC>; g_quarantine = new std::vector<void*>; g_more = new std::unordered_map<uintptr_t, std::vector<Acc>>; g_quarantine->reserve(1 << 16); }
  if (g_used * 4 > g_cap) { for (size_t i = 0; i < g_cap; i++) if (Page* p = g_tab[i]) { p->no = ~(uintptr_t)0; p->gen = 0; *(Page**)p->c = g_free; g_free = p; g_tab[i] = nullptr; } g_used = 0; }
  g_gen++; g_sync->clear(); g_more->clear(); for (int i = 0; i < NT; i++) { memset(g_vc[i].c, 0, sizeof g_vc[i].c); g_vc[i].c[i] = 1; }
  g_on = true;
}
void race_run_end() { g_on = false; for (void* p : *g_quarantine) __libc_free(p); g_quarantine->clear(); }
void race_thread_begin(int tid, void* stack, size_t size) {
  if (tid >= NT) vh::die("race: too many threads");
  if (!g_on) return;
  Inside in; forget((uintptr_t)stack, size);
}
void race_fork(int p, int c) { Inside in; if (c >= NT) vh::die("race: too many threads"); g_vc[c].join(g_vc[p]); g_vc[c].c[p] = g_vc[p].c[p] + 1; g_vc[p].c[p]++; }
void race_join(int w, int e) { Inside in; g_vc[w].join(g_vc[e]); g_vc[w].c[e] = g_vc[e].c[e] + 1; }
void race_acquire(int t, uintptr_t o) { Inside in; auto it = g_sync->find(o); if (it != g_sync->end()) g_vc[t].join(it->second); }
void race_release(int t, uintptr_t o) { Inside in; (*g_sync)[o].join(g_vc[t]); (*g_sync)[o].c[t] = g_vc[t].c[t] + 1; g_vc[t].c[t]++; }

void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && active()) { Inside in; forget((uintptr_t)p, malloc_usable_size(p)); } return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p && active()) { Inside in; forget((uintptr_t)p, malloc_usable_size(p)); } return p; }
void free(void* p) {
  if (!p) return;
  if (!active()) { __libc_free(p); return; }
  access(p, malloc_usable_size(p), 2, false, __builtin_return_address(0));
  Inside in; g_quarantine->push_back(p);
}
void* realloc(void* p, size_t n) {
  if (!active()) return __libc_realloc(p, n);
  void* q = malloc(n); if (q && p) { size_t m = malloc_usable_size(p); memcpy(q, p, m < n ? m : n); free(p); } return q;
}
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p && active()) { Inside in; forget((uintptr_t)p, malloc_usable_size(p)); } return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : 12; }

// calls from instrumented code (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
#define RET __builtin_return_address(0)
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, 0, false, RET); access(d, n, 1, false, RET); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, 0, false, RET); access(d, n, 1, false, RET); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { access(d, n, 1, false, RET); return __real_memset(d, v, n); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, 0, false, RET); } void __tsan_write##n(void* p) { access(p, n, 1, false, RET); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, 0, false, RET); } void __tsan_unaligned_write##n(void* p) { access(p, n, 1, false, RET); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, 0, false, RET); } void __tsan_volatile_write##n(void* p) { access(p, n, 1, false, RET); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, 0, false, RET); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, 1, false, RET); } \
  void __tsan_read_write##n(void* p) { access(p, n, 0, false, RET); access(p, n, 1, false, RET); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, 0, false, RET); }
void __tsan_write_range(void* p, size_t n) { access(p, n, 1, false, RET); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, 1, false, RET); }
void __tsan_vptr_read(void** p) { access(p, 8, 0, false, RET); }
}
namespace {
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool tracked() { return g_on && sched_tid >= 0 && !g_inside; }
void before(const volatile void* p, size_t n, int write, int mo, void* ret, bool point) {
  if (!tracked()) return;
  if (point && sched::controlled()) sched::point((uintptr_t)p, "atomic access");
  access((const void*)p, n, write, true, ret);
  if (acq(mo)) race_acquire(sched_tid, (uintptr_t)p);
  if (write && rel(mo)) race_release(sched_tid, (uintptr_t)p);
}
}  // namespace
typedef uint8_t a8; typedef uint16_t a16; typedef uint32_t a32; typedef uint64_t a64; typedef unsigned __int128 a128;
#define ATOMICS(b) \
  extern "C" a##b __tsan_atomic##b##_load(const volatile a##b* p, int mo) { before(p, b / 8, 0, mo, RET, true); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  extern "C" void __tsan_atomic##b##_store(volatile a##b* p, a##b v, int mo) { before(p, b / 8, 1, mo, RET, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" a##b __tsan_atomic##b##_exchange(volatile a##b* p, a##b v, int mo) { before(p, b / 8, 1, mo, RET, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" a##b __tsan_atomic##b##_fetch_add(volatile a##b* p, a##b v, int mo) { before(p, b / 8, 1, mo, RET, false); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" a##b __tsan_atomic##b##_fetch_sub(volatile a##b* p, a##b v, int mo) { before(p, b / 8, 1, mo, RET, false); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" a##b __tsan_atomic##b##_fetch_and(volatile a##b* p, a##b v, int mo) { before(p, b / 8, 1, mo, RET, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" a##b __tsan_atomic##b##_fetch_or(volatile a##b* p, a##b v, int mo) { before(p, b / 8, 1, mo, RET, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" a##b __tsan_atomic##b##_fetch_xor(volatile a##b* p, a##b v, int mo) { before(p, b / 8, 1, mo, RET, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" a##b __tsan_atomic##b##_fetch_nand(volatile a##b* p, a##b v, int mo) { before(p, b / 8, 1, mo, RET, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" int __tsan_atomic##b##_compare_exchange_strong(volatile a##b* p, a##b* e, a##b v, int mo, int fm) { before(p, b / 8, 1, mo, RET, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  extern "C" int __tsan_atomic##b##_compare_exchange_weak(volatile a##b* p, a##b* e, a##b v, int mo, int fm) { before(p, b / 8, 1, mo, RET, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  extern "C" a##b __tsan_atomic##b##_compare_exchange_val(volatile a##b* p, a##b e, a##b v, int mo, int fm) { before(p, b / 8, 1, mo, RET, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMICS(8) ATOMICS(16) ATOMICS(32) ATOMICS(64)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}
