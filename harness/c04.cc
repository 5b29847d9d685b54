// C04: every sequence of local share operations up to a depth, at every (n,d), against the
// expression evaluated on the secrets.
#include <functional>
#include "parties.h"
using namespace par;

struct St { std::vector<Shr> acc; u64 v; };
static int N, D;
static std::vector<Shr> A, B; static u64 va, vb;
static std::vector<u64> consts;
static std::string path;

struct Op { char k; int o; };     // k: operation, o: operand (0=a,1=b,2=acc) or constant index
static std::vector<Op> ops() {
  std::vector<Op> r;
  for (int o = 0; o < 3; o++) { r.push_back({'+', o}); r.push_back({'-', o}); if (o < 2) { r.push_back({'P', o}); r.push_back({'r', o}); } }
  for (int c = 0; c < (int)consts.size(); c++) for (char k : std::string("aAsSmM")) r.push_back({k, c});
  return r;
}
static std::string name(const Op& o) {
  const char* who[] = {"a", "b", "acc"};
  switch (o.k) {
    case '+': return std::string("acc+") + who[o.o]; case '-': return std::string("acc-") + who[o.o];
    case 'P': return std::string(who[o.o]) + "+acc"; case 'r': return std::string(who[o.o]) + "-acc";
    case 'a': return "acc+c" + std::to_string(o.o); case 'A': return "c" + std::to_string(o.o) + "+acc";
    case 's': return "acc-c" + std::to_string(o.o); case 'S': return "c" + std::to_string(o.o) + "-acc";
    case 'm': return "acc*c" + std::to_string(o.o); default: return "c" + std::to_string(o.o) + "*acc";
  }
}
static St apply(const St& s, const Op& op) {
  St r; r.acc.resize(N);
  auto& man = manipulators(N, D);
  u64 other = op.o == 0 ? va : op.o == 1 ? vb : s.v;
  for (int i = 0; i < N; i++) {
    const Shr& x = s.acc[i];
    const Shr& y = op.k == '+' || op.k == '-' || op.k == 'r' || op.k == 'P' ? (op.o == 0 ? A[i] : op.o == 1 ? B[i] : s.acc[i]) : x;
    const Shr x0 = x, y0 = y;
    Field c = strchr("aAsSmM", op.k) ? mem::fld(consts[(size_t)op.o]) : Field(0); Field c0 = c;
    switch (op.k) {
      case '+': r.acc[i] = man[i].Add(x, y); break;
      case '-': r.acc[i] = man[i].Subtract(x, y); break;
      case 'P': r.acc[i] = man[i].Add(y, x); break;
      case 'r': r.acc[i] = man[i].Subtract(y, x); break;
      case 'a': r.acc[i] = man[i].AddConstant(x, c); break;
      case 'A': r.acc[i] = man[i].AddConstant(c, x); break;
      case 's': r.acc[i] = man[i].SubtractConstant(x, c); break;
      case 'S': r.acc[i] = man[i].SubtractConstant(c, x); break;
      case 'm': r.acc[i] = man[i].MultiplyConstant(x, c); break;
      default: r.acc[i] = man[i].MultiplyConstant(c, x); break;
    }
    if (mem::vals(x) != mem::vals(x0) || mem::vals(y) != mem::vals(y0) || mem::val(c) != mem::val(c0)) vh::fail("%s modified an operand at party %d", (path + " " + name(op)).c_str(), i);
  }
  using namespace model;
  u64 cv = strchr("aAsSmM", op.k) ? consts[(size_t)op.o] : 0;
  switch (op.k) {
    case '+': case 'P': r.v = add(s.v, other); break;
    case '-': r.v = sub(s.v, other); break;
    case 'r': r.v = sub(other, s.v); break;
    case 'a': case 'A': r.v = add(s.v, cv); break;
    case 's': r.v = sub(s.v, cv); break;
    case 'S': r.v = sub(cv, s.v); break;
    default: r.v = mul(s.v, cv); break;
  }
  mem::expect_sharing(r.acc, N, D, r.v, (path + " " + name(op)).c_str());
  vh::transitions(); vh::evals(); vh::state(vh::mix(hash_shares(r.acc), (u64)(N * 100 + D)));
  return r;
}
static void dfs(const St& s, int depth) {
  if (!depth) { vh::traces(); return; }
  vh::progress();
  for (auto& o : ops()) {
    std::string save = path;
    St r = apply(s, o);
    path += " " + name(o);
    dfs(r, depth - 1);
    path = save;
  }
}
// Sums, differences and multiples of double-threshold shares (which the same object also computes with), incl. one object used twice.
static void doubles(int n, int d, int depth) {
  model::Mixer rnd(vh::seed() + (u64)(n * 10 + d));
  const auto& al = alphabet(); const u64 va = al[5], vb = al[2];
  std::vector<Shr> X = mem::share(va, n, 2 * d, rnd), Y = mem::share(vb, n, 2 * d, rnd);
  auto& man = manipulators(n, d);
  struct D { std::vector<Shr> acc; u64 v; };
  const u64 cs[] = {0, 1, model::P - 1, al[5]};
  std::function<void(const D&, int, const std::string&)> go = [&](const D& s, int left, const std::string& path) {
    if (!left) { vh::traces(); return; }
    vh::progress();
    for (int op = 0; op < 18; op++) {
      D r; r.acc.resize((size_t)n); using namespace model;
      char what[40]; snprintf(what, sizeof what, " op%d", op);
      for (int i = 0; i < n; i++) {
        auto& m = man[(size_t)i]; const Shr &x = s.acc[(size_t)i], &a = X[(size_t)i], &b = Y[(size_t)i]; Shr& o = r.acc[(size_t)i];
        const Shr x0 = x, a0 = a, b0 = b;
        switch (op) {
          case 0: o = m.Add(x, a); r.v = add(s.v, va); break; case 1: o = m.Add(b, x); r.v = add(s.v, vb); break; case 2: o = m.Add(x, x); r.v = add(s.v, s.v); break;
          case 3: o = m.Subtract(x, a); r.v = sub(s.v, va); break; case 4: o = m.Subtract(b, x); r.v = sub(vb, s.v); break; case 5: o = m.Subtract(x, x); r.v = 0; break;
          case 6: o = m.Subtract(a, b); r.v = sub(va, vb); break; case 7: o = m.Subtract(a, a); r.v = 0; break; case 8: o = m.Add(a, a); r.v = add(va, va); break; case 9: { Shr y = x; o = m.Subtract(x, y); r.v = 0; break; }
          default: { u64 c = cs[(op - 10) / 2]; o = op % 2 ? m.MultiplyConstant(x, mem::fld(c)) : m.MultiplyConstant(mem::fld(c), x); r.v = mul(s.v, c); break; }
        }
        if (mem::vals(x) != mem::vals(x0) || mem::vals(a) != mem::vals(a0) || mem::vals(b) != mem::vals(b0)) vh::fail("%s%s modified an operand at party %d", path.c_str(), what, i);
      }
      mem::expect_sharing(r.acc, n, 2 * d, r.v, (path + what + " on double-threshold shares").c_str());
      vh::transitions(); vh::evals(); vh::state(vh::mix(hash_shares(r.acc), (u64)(n * 1000 + d)));
      go(r, left - 1, path + what);
    }
  };
  go({X, va}, depth, "acc=x");
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence();
  bool th = vh::thorough();
  auto one = [&](int n, int d, u64 a, u64 b, int depth, int nconst, int first) {
    consts.assign(alphabet().begin(), alphabet().begin() + nconst);
    if (!vh::begin("n=%d d=%d a=%llu b=%llu depth=%d consts=%d first=%d", n, d, (unsigned long long)a, (unsigned long long)b, depth, nconst, first)) return;
    N = n; D = d; va = a; vb = b;
    model::Mixer rnd(vh::seed() + a * 31 + b);
    A = mem::share(a, n, d, rnd); B = mem::share(b, n, d, rnd);
    path = "acc=a";
    St s{A, a};
    if (first < 0) dfs(s, depth);
    else { auto o = ops()[(size_t)first]; St r = apply(s, o); path += " " + name(o); dfs(r, depth - 1); }
    vh::distinct_case();
  };
  const auto& al = alphabet();
  if (vh::is_set("small")) {
    for (int n = 3; n <= 5; n++) for (int d = 1; 2 * d < n; d++) {
      consts.assign(al.begin(), al.begin() + 3);
      int k = (int)ops().size();
      for (int f = 0; f < k; f++) one(n, d, al[5], al[4], th ? 4 : 3, 3, f);
    }
    for (int n = 3; n <= 7; n++) for (int d = 1; 2 * d < n; d++)
      for (int x = 0; x < 6; x++) for (int y = 0; y < 6; y++) one(n, d, al[x], al[y], 1 + (n <= 6), 8, -1);
    for (int n = 8; n <= 10; n++) for (int d = 1; 2 * d < n; d++) { if (model::binom(n - 1, d) > 130) continue; one(n, d, al[5], al[4], 1, 8, -1); }
  }
  if (vh::is_set("small")) for (int n = 3; n <= 10; n++) for (int d = 1; 2 * d < n; d++) {
    int depth = n <= 5 ? (th ? 4 : 3) : n <= 8 ? 2 : 1;
    if (vh::begin("n=%d d=%d: every sequence of %d operations on double-threshold shares", n, d, depth)) { doubles(n, d, depth); vh::distinct_case(); }
  }
  if (vh::is_set("large")) {
    for (int n = 6; n <= 9; n++) for (int d = 1; 2 * d < n; d++) if (model::binom(n - 1, d) <= 60) one(n, d, al[5], al[2], 2, 6, -1);
    for (int n = 10; n <= 13; n++) one(n, (n - 1) / 3, al[5], al[2], 1, 8, -1);
    if (th) for (int n = 6; n <= 7; n++) for (int d = 1; 2 * d < n; d++) for (int f = 0; f < 30; f++) one(n, d, al[5], al[4], 3, 3, f);
  }
  vh::finish();
}
