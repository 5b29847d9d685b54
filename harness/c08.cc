// C08: detection-mode reconstruction over every way to alter up to K copies, every proper subset
// of holders of each additive share, and every coalition that leaves an honest holder.
#include "parties.h"
using namespace par;

static const u64 deltas[] = {1, model::P - 1, 0x123456789ULL, (u64)1 << 60};
static int N, T;
static std::vector<std::vector<u64>> base;    // party -> elements
static Rep* rep;
static std::vector<Shr> work;

static void decide(const char* what) {
  // oracle: all copies agree <=> accept with the sum
  std::vector<std::vector<u64>> s; for (auto& x : work) s.push_back(mem::vals(x));
  u64 want = 0; std::string e = model::consistent(s, N, T, &want);
  bool threw = false; u64 got = 0;
  auto snapshot = s;
  try { got = mem::val(rep->ErrorDetection(work)); } catch (const std::exception&) { threw = true; }
  if (e.empty() && threw) vh::fail("%s: consistent sharing rejected", what);
  if (e.empty() && got != want) vh::fail("%s: consistent sharing gives %llu instead of %llu", what, (unsigned long long)got, (unsigned long long)want);
  if (!e.empty() && !threw) vh::fail("%s: inconsistent sharing accepted (%s)", what, e.c_str());
  vh::count(threw ? "rejected" : "accepted");
  vh::evals(); vh::transitions(); vh::distinct(vh::mix(hash_shares(work), (u64)(N * 100 + T)));
  vh::state(vh::mix(hash_shares(work), (u64)(N * 100 + T)));
}
static void set(int p, int k, u64 d) { work[p][(size_t)k] = mem::fld(model::add(base[p][(size_t)k], d)); }
static void reset(int p, int k) { work[p][(size_t)k] = mem::fld(base[p][(size_t)k]); }

int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence();
  bool th = vh::thorough();
  auto setup = [&](int n, int t, u64 secret, u64 salt) {
    N = n; T = t; rep = &replicator(n, t);
    model::Mixer rnd(vh::seed() * 7 + salt);
    work = mem::share(secret, n, t, rnd); base.clear(); for (auto& x : work) base.push_back(mem::vals(x));
  };
  for (int n = 2; n <= (th ? 9 : 8); n++) for (int t = 1; t < n; t++) {
    const auto& pl = model::placement(n, t);
    int ss = pl.share_size(), cells = n * ss;
    for (u64 secret : {(u64)0, (u64)1, model::P - 1, (u64)0x123456789ABCDEFULL}) {
      // unmodified + every additive share x every non-empty subset of its holders x delta
      if (vh::begin("holder subsets n=%d t=%d secret=%llu", n, t, (unsigned long long)secret)) {
        setup(n, t, secret, 1); decide("unmodified");
        for (int s = 0; s < pl.add_size(); s++) {
          std::vector<int> h; for (int i = 0; i < n; i++) if (pl.sets[s] >> i & 1) h.push_back(i);
          for (unsigned m = 1; m < (1u << h.size()); m++) for (u64 d : deltas) {
            for (size_t k = 0; k < h.size(); k++) if (m >> k & 1) set(h[k], pl.pos(h[k], s), d);
            char w[80]; snprintf(w, sizeof w, "additive share %d, holders %x, delta %llu", s, m, (unsigned long long)d); decide(w);
            for (size_t k = 0; k < h.size(); k++) if (m >> k & 1) reset(h[k], pl.pos(h[k], s));
          }
          vh::progress();
        }
        vh::traces();
      }
    }
    // every pair of copies with every pair of deltas (includes cancelling changes)
    if (cells <= (th ? 400 : 130)) for (int c1 = 0; c1 < cells; c1++) {
      if (!vh::begin("pairs n=%d t=%d first=%d", n, t, c1)) continue;
      setup(n, t, 5, 2);
      for (int c2 = c1 + 1; c2 < cells; c2++) for (int di = 0; di < 2; di++) for (int dj = 0; dj < 2; dj++) {
        set(c1 / ss, c1 % ss, deltas[di]); set(c2 / ss, c2 % ss, deltas[dj]);
        char w[80]; snprintf(w, sizeof w, "cells %d,%d deltas %d,%d", c1, c2, di, dj); decide(w);
        reset(c1 / ss, c1 % ss); reset(c2 / ss, c2 % ss);
      }
      vh::progress(); vh::traces();
    }
    // every triple for small sizes
    if (cells <= (th ? 40 : 20)) for (int c1 = 0; c1 < cells; c1++) {
      if (!vh::begin("triples n=%d t=%d first=%d", n, t, c1)) continue;
      setup(n, t, 5, 3);
      for (int c2 = c1 + 1; c2 < cells; c2++) for (int c3 = c2 + 1; c3 < cells; c3++) for (int dm = 0; dm < 8; dm++) {
        set(c1 / ss, c1 % ss, deltas[dm & 1]); set(c2 / ss, c2 % ss, deltas[dm >> 1 & 1]); set(c3 / ss, c3 % ss, deltas[dm >> 2]);
        char w[80]; snprintf(w, sizeof w, "cells %d,%d,%d deltas %d", c1, c2, c3, dm); decide(w);
        reset(c1 / ss, c1 % ss); reset(c2 / ss, c2 % ss); reset(c3 / ss, c3 % ss);
      }
      vh::progress(); vh::traces();
    }
    // exhaustive: every assignment of {0, +1, -1} to all copies, smallest instances
    if (cells <= (th ? 12 : 9)) if (vh::begin("all assignments n=%d t=%d", n, t)) {
      setup(n, t, 7, 4);
      for (vh::Radix r(std::vector<int>((size_t)cells, 3)); r.ok(); r.next()) {
        for (int c = 0; c < cells; c++) { if (r[c]) set(c / ss, c % ss, deltas[r[c] - 1]); else reset(c / ss, c % ss); }
        decide(r.str().c_str());
      }
      vh::traces();
    }
    // coalitions that leave an honest holder of each additive share: every change they make together
    if (vh::begin("coalitions n=%d t=%d", n, t)) {
      setup(n, t, 11, 5);
      for (unsigned c = 1; c < (1u << n); c++) {
        bool leaves = true; for (unsigned s : pl.sets) if ((s & ~c) == 0) leaves = false;
        if (!leaves) continue;
        // the same delta to all copies the coalition holds of one additive share, of two, and of all
        for (int s1 = 0; s1 < pl.add_size(); s1++) for (int s2 = s1; s2 < pl.add_size(); s2 += (pl.add_size() > 40 ? 7 : 1)) {
          bool any = false;
          for (int i = 0; i < n; i++) if (c >> i & 1) for (int k = 0; k < ss; k++) { int s = pl.of[i][k]; if (s == s1 || s == s2) { set(i, k, s == s1 ? 1 : model::P - 1); any = true; } }
          if (any) { char w[80]; snprintf(w, sizeof w, "coalition %x shares %d,%d", c, s1, s2); decide(w); }
          for (int i = 0; i < n; i++) if (c >> i & 1) for (int k = 0; k < ss; k++) reset(i, k);
        }
        for (int i = 0; i < n; i++) if (c >> i & 1) for (int k = 0; k < ss; k++) set(i, k, model::Mixer((u64)pl.of[i][k]).elem());
        char w[80]; snprintf(w, sizeof w, "coalition %x alters everything it holds", c); decide(w);
        for (int i = 0; i < n; i++) for (int k = 0; k < ss; k++) reset(i, k);
        vh::progress();
      }
      vh::traces();
    }
  }
  for (int n = 9; n <= 13; n++) for (int t : {1, 2, (n - 1) / 3}) {
    if (model::binom(n - 1, t) > 500) continue;
    const auto& pl = model::placement(n, t);
    for (int i = 0; i < n; i++) if (vh::begin("single copies n=%d t=%d party=%d", n, t, i)) {
      setup(n, t, 3, 6); decide("unmodified");
      for (int k = 0; k < pl.share_size(); k += (pl.share_size() > 100 ? 7 : 1)) { set(i, k, 1); char w[60]; snprintf(w, sizeof w, "party %d element %d", i, k); decide(w); reset(i, k); vh::progress(); }
      vh::traces();
    }
  }
  vh::finish();
}
