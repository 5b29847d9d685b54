// C05: local products at every (n,d): all pairs of unit sharings, operand alphabets, and every
// pair of positions for the placement query.
#include "parties.h"
using namespace par;

static void products(int n, int d, const std::vector<Shr>& x, const std::vector<Shr>& y, u64 want, const char* what) {
  auto& man = manipulators(n, d);
  std::vector<Shr> dd(n); u64 sum = 0;
  for (int i = 0; i < n; i++) {
    const Shr x0 = x[i], y0 = y[i];
    dd[i] = man[i].MultiplyToDoubleDegree(x[i], y[i]);
    u64 a = mem::val(man[i].MultiplyToAdditive(x[i], y[i]));
    if (mem::vals(x0) != mem::vals(x[i]) || mem::vals(y0) != mem::vals(y[i])) vh::fail("%s: operand modified at party %d", what, i);
    if (i < 2 * d + 1) sum = model::add(sum, a);
    else if (a) vh::fail("%s: party %d beyond the first %d has a non-zero additive share", what, i, 2 * d + 1);
  }
  mem::expect_sharing(dd, n, 2 * d, want, what);
  if (sum != want) vh::fail("%s: additive shares sum to %llu, expected %llu", what, (unsigned long long)sum, (unsigned long long)want);
  vh::evals(); vh::transitions((u64)n * 2); vh::state(vh::mix(hash_shares(dd), (u64)(n * 100 + d)));
}
static std::vector<Shr> unit(int n, int d, int s, u64 v) {
  const auto& pl = model::placement(n, d);
  std::vector<Shr> r(n);
  for (int i = 0; i < n; i++) for (int k : pl.of[i]) r[i].push_back(mem::fld(k == s ? v : 0));
  return r;
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence();
  bool th = vh::thorough();
  const auto& al = alphabet();
  int m = (int)al.size();
  auto bases = [&](int n, int d) {
    const auto& pl = model::placement(n, d);
    for (int s = 0; s < pl.add_size(); s++) {
      if (!vh::begin("unit sharings n=%d d=%d s=%d", n, d, s)) continue;
      auto x = unit(n, d, s, al[5]);
      for (int t = 0; t < pl.add_size(); t++) { char w[60]; snprintf(w, sizeof w, "unit %d x unit %d", s, t); products(n, d, x, unit(n, d, t, al[2]), model::mul(al[5], al[2]), w); vh::progress(); }
      vh::traces(); vh::distinct_case();
    }
  };
  auto operands = [&](int n, int d, int count) {
    for (int i = 0; i < count; i++) {
      int a = (i / m) % m, b = i % m;
      if (!vh::begin("operands n=%d d=%d %d", n, d, i)) continue;
      model::Mixer rnd(vh::seed() * 99 + (u64)i);
      char w[80]; snprintf(w, sizeof w, "%llu * %llu", (unsigned long long)al[a], (unsigned long long)al[b]);
      products(n, d, mem::share(al[a], n, d, rnd), mem::share(al[b], n, d, rnd), model::mul(al[a], al[b]), w);
      vh::traces(); vh::distinct_case();
    }
  };
  auto positions = [&](int n, int d, int step) {
    const auto& pl = model::placement(n, d); const auto& p2 = model::placement(n, 2 * d);
    for (int i = 0; i < n; i++) {
      if (!vh::begin("positions n=%d d=%d party=%d", n, d, i)) continue;
      auto& man = manipulators(n, d)[i];
      int ss = pl.share_size();
      for (int a = 0; a < ss; a += step) for (int b = 0; b < ss; b += (step > 1 ? 3 : 1)) {
        unsigned inter = pl.sets[pl.of[i][a]] & pl.sets[pl.of[i][b]];
        unsigned target = model::first_k(inter, n - 2 * d);
        int want = target >> i & 1 ? p2.pos(i, p2.index.at(target)) : -1;
        int got = man.ComputeIndexForDoubleMultiplication((size_t)a, (size_t)b);
        if (got != want) vh::fail("elements %d,%d: position %d reported, expected %d", a, b, got, want);
        vh::evals(); vh::transitions(); vh::state(vh::mix(vh::mix((u64)(n * 100 + d), (u64)(i * 1000 + got + 1)), (u64)a * 7919 + (u64)b));
      }
      vh::traces(); vh::distinct_case();
    }
  };
  if (vh::is_set("large")) {
    if (th) { operands(14, 4, 2); positions(13, 4, 7); }
    operands(13, 4, 8); operands(12, 3, 8); operands(12, 5, th ? 4 : 0); operands(11, 3, 16);
    for (int n = 8; n <= 11; n++) for (int d = 1; 2 * d < n; d++) { if (model::binom(n - 1, d) > (th ? 500 : 130)) continue; operands(n, d, 8); positions(n, d, n > 9 ? 5 : 2); }
    for (int n = 8; n <= (th ? 9 : 8); n++) for (int d = 1; 2 * d < n; d++) bases(n, d);
    positions(13, 4, 61);
  }
  if (vh::is_set("small")) {
    for (int n = 3; n <= 7; n++) for (int d = 1; 2 * d < n; d++) { bases(n, d); operands(n, d, m * m); positions(n, d, 1); }
  }
  vh::finish();
}
