// C07: exact distribution of every t-coalition's shares, for every secret, by exhausting all
// generator outputs of the real sharing code over F_p (p = MODEL_P).
#include "dist.h"
#include <set>
#include "frn/lib/secret_sharing/additive.h"
#include "frn/lib/secret_sharing/rep.h"
#include "frn/util.h"
using frn::Field; using model::u64;
using Rep = frn::lib::secret_sharing::Replicator<Field>;
using Gen = frn::lib::primitives::PRG;

static u64 val(const Field& f) { Field::ValueType v = 0; f.ToBytes((unsigned char*)&v); return (u64)v; }
static dist::Tape tape;
static dist::RandomFunction rf;
static void arm() {
  tape.rewind(); rf.memo.clear();
  tiny::oracle = [](const tiny::Key& k, u64 lane) { auto id = std::make_pair(rf.key(k), lane); auto it = rf.memo.find(id); if (it != rf.memo.end()) return it->second; u64 v = (u64)tape.choose(); rf.memo[id] = v; return v; };
}
static u64 hash_vec(const std::vector<Field>& v, u64 h) { for (auto& f : v) h = vh::mix(h, val(f) + 1); return vh::mix(h, v.size()); }
// For each secret tuple, exhausts run() and collects per-coalition histograms of view(coalition).
template <class Run> void compare(const std::vector<std::vector<u64>>& secrets, const std::vector<unsigned>& coal, const std::vector<unsigned>& big, Run run, const char* what) {
  std::vector<std::vector<dist::Hist>> H(secrets.size(), std::vector<dist::Hist>(coal.size())), B(secrets.size(), std::vector<dist::Hist>(big.size()));
  for (size_t s = 0; s < secrets.size(); s++) {
    tape = dist::Tape();
    u64 n = 0;
    do {
      arm(); std::vector<u64> per_party = run(secrets[s]);
      u64 w = dist::weight(tape.pos);
      auto view = [&](unsigned c) { u64 h = 5; for (size_t i = 0; i < per_party.size(); i++) if (c >> i & 1) h = vh::mix(h, per_party[i]); return h; };
      for (size_t c = 0; c < coal.size(); c++) { u64 v = view(coal[c]); H[s][c][v] += w; }
      for (size_t c = 0; c < big.size(); c++) B[s][c][view(big[c])] += w;
      if ((++n & 1023) == 0) vh::progress();
      vh::evals(); vh::transitions(tape.pos); vh::state(vh::mix(vh::mix(view(~0u), per_party.size()), secrets[s].size() * 31 + coal.size()));
    } while (tape.next());
    vh::traces(n);
  }
  for (size_t s = 1; s < secrets.size(); s++) for (size_t c = 0; c < coal.size(); c++)
    if (!dist::equal(H[0][c], H[s][c])) {
      std::string m; for (int i = 0; i < 30; i++) if (coal[c] >> i & 1) m += " " + std::to_string(i);
      vh::fail("%s: the shares of the coalition {%s } are distributed differently for secret(s) %llu.. and %llu..", what, m.c_str(), (unsigned long long)secrets[0][0], (unsigned long long)secrets[s][0]);
    }
  for (size_t s = 0; s < secrets.size(); s++) for (size_t r = 0; r < s; r++) for (size_t c = 0; c < big.size(); c++)
    if (!dist::disjoint(B[r][c], B[s][c])) vh::fail("%s: a coalition above the threshold (mask %x) cannot tell two secrets apart", what, big[c]);
  for (auto& h : H[0]) vh::distinct(dist::hist_hash(h));
}
static std::vector<std::vector<u64>> tuples(size_t k) { std::vector<std::vector<u64>> r{{}}; for (size_t i = 0; i < k; i++) { std::vector<std::vector<u64>> n; for (auto& x : r) for (u64 v = 0; v < MODEL_P; v++) { auto y = x; y.push_back(v); n.push_back(y); } r = n; } return r; }
static double cost(int lanes) { double c = 1; for (int i = 0; i < lanes; i++) c *= MODEL_P; return c; }

// Larger parameters: sharing is an affine map (tape, secrets) -> shares. Its matrix is read off the executions in which
// one choice is 1; executions with two and with all choices set decide whether it is affine. A coalition learns
// nothing if every combination of its shares that is free of the tape is free of the secrets.
typedef std::vector<std::vector<u64>> Views;       // per party
template <class Run> void structure(int k, const std::vector<unsigned>& coal, const std::vector<unsigned>& big, bool pairs, Run run, const char* what) {
  auto exec = [&](std::vector<int> v, const std::vector<u64>& s) { tape = dist::Tape(); tape.v = std::move(v); arm(); Views r = run(s); vh::evals(); vh::transitions(tape.pos); vh::progress(); return r; };
  const std::vector<u64> none((size_t)k, 0); const u64 p = MODEL_P;
  Views base = exec({}, none); size_t lanes = tape.pos, n = base.size();
  bool affine = true;
  auto unit = [&](size_t i, int c) { std::vector<int> v(lanes, 0); v[i] = c; return v; };
  std::vector<Views> col;
  auto diff = [&](const Views& a) { Views d = base; for (size_t i = 0; i < n; i++) { if (a[i].size() != base[i].size()) { affine = false; return d; } for (size_t z = 0; z < a[i].size(); z++) d[i][z] = (a[i][z] + p - base[i][z]) % p; } return d; };
  for (size_t i = 0; i < lanes; i++) { col.push_back(diff(exec(unit(i, 1), none))); affine = affine && tape.pos == lanes; }
  for (int j = 0; j < k; j++) { auto s = none; s[(size_t)j] = 1; col.push_back(diff(exec({}, s))); affine = affine && tape.pos == lanes; }
  auto predict = [&](const std::vector<int>& v, const std::vector<u64>& s) {
    Views e = base; for (size_t c = 0; c < col.size(); c++) { u64 f = c < lanes ? (u64)v[c] : s[c - lanes]; if (f) for (size_t i = 0; i < n; i++) for (size_t z = 0; z < e[i].size(); z++) e[i][z] = (e[i][z] + f * col[c][i][z]) % p; }
    return e;
  };
  auto same = [&](const std::vector<int>& v, const std::vector<u64>& s) { affine = affine && exec(v, s) == predict(v, s) && tape.pos == lanes; };
  if (affine) {
    same(std::vector<int>(lanes, (int)p - 1), none); same(std::vector<int>(lanes, 1), std::vector<u64>((size_t)k, p - 1));
    for (size_t i = 0; i < lanes; i++) for (size_t j = 0; j < i; j++) { if (!pairs && j + 1 != i && j) continue; auto v = unit(i, 1); v[j] = (int)p - 1; same(v, j & 1 ? none : std::vector<u64>((size_t)k, 1)); }
  }
  if (!affine) { vh::count("structures that are not affine (left to the exhaustive cases)"); return; }
  size_t w = col.size(); std::vector<u64> inv(p); for (u64 x = 1; x < p; x++) for (u64 y = 1; y < p; y++) if (x * y % p == 1) inv[x] = y;
  // the part of the secrets that a coalition can compute without knowing the tape
  auto learns = [&](unsigned c) {
    std::vector<std::vector<unsigned char>> basis(w); std::set<std::vector<unsigned char>> rows; size_t rank = 0;
    for (size_t i = 0; i < n; i++) if (n > 32 ? c != i + 1 : c >> i & 1) for (size_t z = 0; z < base[i].size(); z++) { std::vector<unsigned char> r(w); for (size_t q = 0; q < w; q++) r[q] = (unsigned char)col[q][i][z]; rows.insert(r); }
    for (auto r : rows) for (size_t q = 0; q < w; q++) {
      if (!r[q]) continue;
      if (basis[q].empty()) { unsigned char f = (unsigned char)inv[r[q]]; for (size_t x = q; x < w; x++) r[x] = (unsigned char)(r[x] * f % p); basis[q] = r; rank += q >= lanes; break; }
      unsigned char f = (unsigned char)(p - r[q]); const unsigned char* b = basis[q].data(); for (size_t x = q; x < w; x++) r[x] = (unsigned char)((r[x] + f * b[x]) % p);
    }
    vh::progress(); vh::state(vh::mix(vh::mix(w, c), rows.size() * 64 + rank));
    return rank;
  };
  for (unsigned c : coal) if (size_t r = learns(c)) {
    std::string m; for (size_t i = 0; i < n && n <= 32; i++) if (c >> i & 1) m += " " + std::to_string(i);
    vh::fail("%s: the coalition {%s } can compute %zu independent function(s) of the %d secret(s)", what, m.c_str(), r, k);
  }
  for (unsigned c : big) if (learns(c) != (size_t)k) vh::fail("%s: a coalition above the threshold (mask %x) does not hold what determines the secrets", what, c);
  vh::traces(); vh::distinct_case();
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const double lim = vh::thorough() ? 3e7 : 6e5;
  // one secret and lists of secrets, sharings made one after another from one generator
  for (int k = 1; k <= 3; k++)
    for (int n = 2; n <= 8; n++) for (int t = 1; t < n; t++) {
      int a = (int)model::binom(n, t);
      if (cost(a * k + k) > lim) continue;
      std::vector<unsigned> coal = model::subsets(n, t), big = t + 1 <= n ? model::subsets(n, t + 1) : std::vector<unsigned>();
      for (int style = 0; style < (k == 1 ? 1 : 2); style++) {
        if (!vh::begin("F_%d: n=%d t=%d, %d secret(s), %s", (int)MODEL_P, n, t, k, style ? "as a list" : "one by one")) continue;
        Rep rep((size_t)n, (size_t)t);
        compare(tuples((size_t)k), coal, big, [&](const std::vector<u64>& s) {
          unsigned char seed[16] = {9}; Gen g(seed);
          std::vector<u64> view((size_t)n, 1);
          if (style) {
            std::vector<Field> f; for (u64 x : s) f.emplace_back(x);
            auto sh = rep.Share(f, g);
            for (int i = 0; i < n; i++) for (auto& x : sh[(size_t)i]) view[(size_t)i] = hash_vec(x, view[(size_t)i]);
          } else for (u64 x : s) { auto sh = rep.Share(Field(x), g); for (int i = 0; i < n; i++) view[(size_t)i] = hash_vec(sh[(size_t)i], view[(size_t)i]); }
          return view;
        }, "replicated sharing");
      }
    }
  for (int k = 1; k <= 2; k++) for (int n = 1; n <= 20; n++) {
    if (cost(n * k + k) > lim) continue;
    if (!vh::begin("F_%d: additive sharing in %d parts, %d secret(s)", (int)MODEL_P, n, k)) continue;
    compare(tuples((size_t)k), n > 1 ? model::subsets(n, n - 1) : std::vector<unsigned>(), {(1u << n) - 1}, [&](const std::vector<u64>& s) {
      unsigned char seed[16] = {9}; Gen g(seed); std::vector<u64> view((size_t)n, 1);
      for (u64 x : s) { auto p = frn::lib::secret_sharing::ShareAdditive(Field(x), (size_t)n, g); if ((int)p.size() != n) vh::fail("%zu parts instead of %d", p.size(), n); for (int i = 0; i < n; i++) view[(size_t)i] = vh::mix(view[(size_t)i], val(p[(size_t)i]) + 1); }
      return view;
    }, "additive sharing");
  }
  // structure for larger parameters; longer lists
  auto go = [&](int n, int t, int k, int style) {
    if (!vh::begin("F_%d structure: n=%d t=%d, %d secret(s), %s", (int)MODEL_P, n, t, k, style ? "as a list" : "one by one")) return;
    Rep rep((size_t)n, (size_t)t);
    structure(k, model::subsets(n, t), model::subsets(n, t + 1), n <= 7 && k <= 3, [&](const std::vector<u64>& s) {
      unsigned char seed[16] = {9}; Gen g(seed); Views v((size_t)n);
      auto put = [&](int i, const std::vector<Field>& x) { for (auto& f : x) v[(size_t)i].push_back(val(f)); };
      if (style) { std::vector<Field> f; for (u64 x : s) f.emplace_back(x); auto sh = rep.Share(f, g); for (int i = 0; i < n; i++) for (auto& x : sh[(size_t)i]) put(i, x); }
      else for (u64 x : s) { auto sh = rep.Share(Field(x), g); for (int i = 0; i < n; i++) put(i, sh[(size_t)i]); }
      return v;
    }, "replicated sharing");
  };
  const bool th = vh::thorough();
  for (int n = 2; n <= (th ? 13 : 11); n++) for (int t = 1; t < n; t++) if (model::binom(n, t) <= (th ? 1300u : MODEL_P == 2 ? 470u : 130u)) go(n, t, 1, 0);
  for (int n = 12; n <= (th ? 24 : 18); n++) for (int t : {1, 2, n - 2, n - 1}) if (model::binom(n, t) <= 160 || th) go(n, t, 1, 1);
  for (int n : {3, 4, 5}) for (int k : {2, 3, 8, 17, 40}) for (int style = 0; style < 2; style++) go(n, (n - 1) / 2, k, style);
  if (MODEL_P == 2) for (int k : {65, 130, 260}) for (int style = 0; style < 2; style++) go(3, 1, k, style);
  for (int n : {9, 16, 17, 24, 31}) for (int k = 1; k <= 2; k++) {
    if (!vh::begin("F_%d structure: additive sharing in %d parts, %d secret(s)", (int)MODEL_P, n, k)) continue;
    std::vector<unsigned> coal; for (int i = 0; i < n; i++) coal.push_back(((1u << n) - 1) & ~(1u << i));
    structure(k, coal, {(1u << n) - 1}, true, [&](const std::vector<u64>& s) {
      unsigned char seed[16] = {9}; Gen g(seed); Views v((size_t)n);
      for (u64 x : s) { auto q = frn::lib::secret_sharing::ShareAdditive(Field(x), (size_t)n, g); for (int i = 0; i < n; i++) v[(size_t)i].push_back(val(q[(size_t)i])); }
      return v;
    }, "additive sharing");
  }
  for (int n : {64, 255, 256, 257, 600}) {
    if (!vh::begin("F_%d structure: additive sharing in %d parts", (int)MODEL_P, n)) continue;
    std::vector<unsigned> all_but; for (int i = 0; i < n; i++) if (i < 3 || i + 3 > n || i % 64 < 2 || n < 100) all_but.push_back((unsigned)i + 1);
    structure(1, all_but, {0}, false, [&](const std::vector<u64>& s) {
      unsigned char seed[16] = {9}; Gen g(seed); Views v((size_t)n);
      auto q = frn::lib::secret_sharing::ShareAdditive(Field(s[0]), (size_t)n, g); for (int i = 0; i < n; i++) v[(size_t)i].push_back(val(q[(size_t)i]));
      return v;
    }, "additive sharing");
  }
  vh::finish();
}
