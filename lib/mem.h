// Deterministic n-party execution: every party is a fiber, the network is a set of unbounded
// byte streams (one per ordered pair), every message is recorded, and a state in which no party
// can run is reported as a deadlock.
#ifndef MEM_H
#define MEM_H
#include <sys/mman.h>
#include <ucontext.h>

#include <deque>
#include <exception>
#include <functional>
#include <iostream>
#include <memory>
#include <string>
#include <vector>

#include "frn.h"
#include "model.h"
#include "vh.h"

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define MEM_ASAN 1
#endif

namespace mem {
using frn::Field;
using frn::Shr;
using model::u64;

constexpr size_t W = sizeof(Field::ValueType);
inline u64 val(const Field& f) {
  Field::ValueType v = 0;
  f.ToBytes((unsigned char*)&v);
  return (u64)v;
}
inline std::vector<u64> vals(const std::vector<Field>& v) { std::vector<u64> r; r.reserve(v.size()); for (auto& f : v) r.push_back(val(f)); return r; }
inline Field fld(u64 v) { return Field((Field::ValueType)v); }
inline void silence() { std::cout.rdbuf(nullptr); }

enum Kind { kField, kShares, kBytes };
struct Msg { int from, to; Kind kind; std::vector<u64> v; };   // v: elements, or bytes for kBytes
struct Wire { std::deque<unsigned char> q; };

struct Fiber {
  ucontext_t uc; void* stack = nullptr; bool done = false, blocked = false; int party = 0;
  std::string error; bool failed = false;
  std::function<void()> fn;
  void* fake = nullptr;
};

class World;
inline World*& current() { static World* w = nullptr; return w; }

class World {
 public:
  int n;
  std::vector<std::vector<Wire>> wire;
  std::vector<Msg> log;
  std::vector<Fiber> fib;
  std::vector<int> order;                 // scheduling order of the parties
  ucontext_t main;
  const void* main_bottom = nullptr; size_t main_size = 0;
  int running = -1;
  size_t ops = 0;
  bool keep_log = true;

  explicit World(int n_) : n(n_), wire(n_, std::vector<Wire>(n_)) { for (int i = 0; i < n; i++) order.push_back(i); }

  static constexpr size_t kStack = 1 << 20;
  static std::vector<void*>& pool() { static std::vector<void*> p; return p; }
  static void* get_stack() {
    if (!pool().empty()) { void* s = pool().back(); pool().pop_back(); return s; }
    void* s = mmap(0, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (s == MAP_FAILED) vh::die("mmap stack");
    return s;
  }
  static void entry() {
    World* w = current();
    Fiber& f = w->fib[w->running];
#ifdef MEM_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &w->main_bottom, &w->main_size);
#endif
    try { f.fn(); }
    catch (const std::exception& e) { f.failed = true; f.error = e.what(); }
    catch (...) { f.failed = true; f.error = "unknown exception"; }
    f.done = true;
#ifdef MEM_ASAN
    __sanitizer_start_switch_fiber(nullptr, w->main_bottom, w->main_size);
#endif
    swapcontext(&f.uc, &w->main);
  }
  void yield_blocked() {
    Fiber& f = fib[running];
    f.blocked = true;
#ifdef MEM_ASAN
    __sanitizer_start_switch_fiber(&f.fake, main_bottom, main_size);
#endif
    swapcontext(&f.uc, &main);
#ifdef MEM_ASAN
    __sanitizer_finish_switch_fiber(f.fake, nullptr, nullptr);
#endif
  }
  void resume(int i) {
    running = i; fib[i].blocked = false;
#ifdef MEM_ASAN
    void* fake = nullptr;
    __sanitizer_start_switch_fiber(&fake, fib[i].stack, kStack);
#endif
    swapcontext(&main, &fib[i].uc);
#ifdef MEM_ASAN
    __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
    running = -1;
  }
  // Runs body(i) for every party; "" if all ended normally, else a description.
  std::string run(const std::function<void(int)>& body) {
    World* saved = current(); current() = this;
    fib.clear(); fib.resize(n);
    for (int i = 0; i < n; i++) {
      Fiber& f = fib[i];
      f.party = i; f.stack = get_stack(); f.fn = [&body, i] { body(i); };
      getcontext(&f.uc);
      f.uc.uc_stack.ss_sp = f.stack; f.uc.uc_stack.ss_size = kStack; f.uc.uc_link = nullptr;
      makecontext(&f.uc, (void (*)())entry, 0);
    }
    std::string res;
    while (true) {
      bool any = false, all = true;
      for (int k = 0; k < n; k++) {
        int i = order[k];
        if (fib[i].done) continue;
        all = false;
        if (fib[i].blocked && !ready(i)) continue;
        any = true;
        resume(i);
      }
      if (all) break;
      if (!any) {
        res = "deadlock: parties waiting for data that is never sent:";
        for (int i = 0; i < n; i++) if (!fib[i].done) res += " P" + std::to_string(i) + "<-P" + std::to_string(want_from[i]) + "(" + std::to_string(want[i]) + " bytes)";
        break;
      }
    }
    if (res.empty())
      for (int i = 0; i < n; i++) if (fib[i].failed) { res = "party " + std::to_string(i) + " failed: " + fib[i].error; break; }
    for (int i = 0; i < n; i++) if (fib[i].done) pool().push_back(fib[i].stack);
    current() = saved;
    return res;
  }
  std::string leftover() const {
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
      if (!wire[i][j].q.empty()) return std::to_string(wire[i][j].q.size()) + " bytes from P" + std::to_string(i) + " to P" + std::to_string(j) + " left unread";
    return "";
  }
  std::vector<int> want_from = std::vector<int>(64, 0); std::vector<size_t> want = std::vector<size_t>(64, 0);
  bool ready(int i) const { return wire[want_from[i]][i].q.size() >= want[i]; }
  void put(int from, int to, const unsigned char* p, size_t k) {
    if (to < 0 || to >= n) throw std::out_of_range("send to party " + std::to_string(to));
    auto& q = wire[from][to].q; q.insert(q.end(), p, p + k); ops++;
  }
  void get(int from, int to, unsigned char* p, size_t k) {
    if (from < 0 || from >= n) throw std::out_of_range("receive from party " + std::to_string(from));
    auto& q = wire[from][to].q; ops++;
    want_from[to] = from; want[to] = k;
    while (q.size() < k) yield_blocked();
    for (size_t i = 0; i < k; i++) p[i] = q[i];
    q.erase(q.begin(), q.begin() + k);
  }
};

class Net final : public frn::Network {
 public:
  Net(unsigned id, size_t n, int t, World* w) : frn::Network(id, n), w_(w), share_(model::placement((int)n, t).share_size()) {}
  void Send(unsigned id, const std::vector<Field>& v) override {
    if (w_->keep_log) w_->log.push_back({(int)Id(), (int)id, kField, vals(v)});
    send(id, v);
  }
  void SendShares(unsigned id, const std::vector<Shr>& s) override {
    for (auto& x : s) { if (w_->keep_log) w_->log.push_back({(int)Id(), (int)id, kShares, vals(x)}); send(id, x); }
  }
  void SendBytes(unsigned id, const std::vector<unsigned char>& d) override {
    if (w_->keep_log) w_->log.push_back({(int)Id(), (int)id, kBytes, std::vector<u64>(d.begin(), d.end())});
    w_->put((int)Id(), (int)id, d.data(), d.size());
  }
  std::vector<Field> Recv(unsigned id, size_t k) override {
    std::vector<unsigned char> b(k * W + 1);
    w_->get((int)id, (int)Id(), b.data(), k * W);
    std::vector<Field> r; r.reserve(k);
    for (size_t i = 0; i < k; i++) { Field::ValueType v; memcpy(&v, b.data() + i * W, W); r.push_back(Field(v)); }
    return r;
  }
  std::vector<Shr> RecvShares(unsigned id, size_t k) override {
    std::vector<Shr> r;
    for (size_t i = 0; i < k; i++) r.push_back(Recv(id, share_));
    return r;
  }
  std::vector<unsigned char> RecvBytes(unsigned id, size_t k) override {
    std::vector<unsigned char> b(k + 1);
    w_->get((int)id, (int)Id(), b.data(), k);
    b.resize(k);
    return b;
  }

 private:
  void send(unsigned id, const std::vector<Field>& v) {
    std::vector<unsigned char> b(v.size() * W + 1);
    for (size_t i = 0; i < v.size(); i++) { Field::ValueType x = (Field::ValueType)val(v[i]); memcpy(b.data() + i * W, &x, W); }
    w_->put((int)Id(), (int)id, b.data(), v.size() * W);
  }
  World* w_; size_t share_;
};
inline std::shared_ptr<Net> net(int id, int n, int t, World& w) { return std::make_shared<Net>((unsigned)id, (size_t)n, t, &w); }

// A consistent sharing of v with the given randomness, built from the model's placement.
inline std::vector<Shr> share(u64 v, int n, int t, model::Mixer& rnd) {
  const auto& pl = model::placement(n, t);
  std::vector<u64> a(pl.add_size());
  u64 s = 0;
  for (size_t i = 0; i + 1 < a.size(); i++) { a[i] = rnd.elem(); s = model::add(s, a[i]); }
  a.back() = model::sub(v, s);
  std::vector<Shr> r(n);
  for (int i = 0; i < n; i++) for (int k : pl.of[i]) r[i].push_back(fld(a[k]));
  return r;
}
// Checks that parties' shares are a consistent (n,t) sharing of want.
inline void expect_sharing(const std::vector<Shr>& sh, int n, int t, u64 want, const char* what) {
  std::vector<std::vector<u64>> s; for (auto& x : sh) s.push_back(vals(x));
  u64 got = 0;
  std::string e = model::consistent(s, n, t, &got);
  if (!e.empty()) vh::fail("%s: %s", what, e.c_str());
  if (got != want) vh::fail("%s: reconstructs to %llu, expected %llu", what, (unsigned long long)got, (unsigned long long)want);
}
inline frn::lib::primitives::PRG prg(u64 a, u64 b = 0) {
  unsigned char s[16]; memcpy(s, &a, 8); memcpy(s + 8, &b, 8);
  return frn::lib::primitives::PRG(s);
}
}  // namespace mem
#endif
