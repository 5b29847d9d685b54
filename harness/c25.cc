// C25: vector and matrix operations over every shape up to a bound, every content over F_3 for the
// smallest shapes and structured contents otherwise, and every submatrix request, against their
// definitions.
#include <functional>
#include <sstream>

#include "frn/lib/math/fp.h"
#include "frn/lib/math/mat.h"
#include "frn/lib/math/p.h"
#include "frn/lib/math/vec.h"
#include "vh.h"
using namespace frn::lib::math;
using u64 = uint64_t; using u128 = __uint128_t;

template <u64 N> struct Tiny : public Prime<Tiny<N>, u64, int64_t> {
  using ValueType = u64; static constexpr u64 kPrime = N;
  static u64 Multiply(const u64& a, const u64& b) { return a * b % N; }
};
template <class P> u128 raw(const FpElement<P>& x) { typename P::ValueType v; x.ToBytes((unsigned char*)&v); return v; }
template <class P> u128 mulp(u128 a, u128 b) {
  const u128 p = P::kPrime; if (sizeof(typename P::ValueType) == 8) return a * b % p;
  u128 r = 0; while (b) { if (b & 1) { r += a; if (r >= p) r -= p; } a += a; if (a >= p) a -= p; b >>= 1; } return r;
}
template <class P> u128 addp(u128 a, u128 b) { return (a + b) % P::kPrime; }
template <class P> u128 subp(u128 a, u128 b) { return (a + (u128)P::kPrime - b) % P::kPrime; }
template <class P> struct M {     // reference matrix
  size_t r, c; std::vector<u128> v;
  u128& at(size_t i, size_t j) { return v[i * c + j]; }
  u128 at(size_t i, size_t j) const { return v[i * c + j]; }
};
template <class P> using Mat = Matrix<FpElement<P>>;
template <class P> Mat<P> real(const M<P>& m) { Mat<P> x(m.r, m.c); for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++) x(i, j) = FpElement<P>((typename P::ValueType)m.at(i, j)); return x; }
static std::string what;
template <class P> void same(const Mat<P>& x, const M<P>& m, const char* op) {
  if (x.RowCount() != m.r || x.ColumnCount() != m.c) vh::fail("%s: %s has shape %zux%zu, expected %zux%zu", what.c_str(), op, x.RowCount(), x.ColumnCount(), m.r, m.c);
  Mat<P> y(x);
  for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++)
    if (raw(x(i, j)) != m.at(i, j) || raw(y(i, j)) != m.at(i, j)) vh::fail("%s: entry (%zu,%zu) of %s is wrong", what.c_str(), i, j, op);
  vh::evals();
}
static std::string dec(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } return s; }
template <class P> void text(const Mat<P>& x, const M<P>& m) {
  std::string s = x.ToString(); std::vector<std::vector<std::string>> rows; size_t width = 0, nl = 0;
  std::istringstream is(s); std::string line;
  while (std::getline(is, line)) {
    size_t a = line.find('['), b = line.rfind(']');
    if (a == std::string::npos) { VCHECK(line.find_first_not_of(' ') == std::string::npos, "%s: text form has the line '%s'", what.c_str(), line.c_str()); continue; }
    VCHECK(b != std::string::npos && b > a, "%s: unbalanced row '%s'", what.c_str(), line.c_str());
    if (!nl++) width = line.size(); else VCHECK(line.size() == width, "%s: rows are not aligned", what.c_str());
    std::istringstream ls(line.substr(a + 1, b - a - 1)); std::string t; rows.emplace_back(); while (ls >> t) rows.back().push_back(t);
  }
  VCHECK(rows.size() == m.r, "%s: text form of a %zux%zu matrix has %zu rows:%s", what.c_str(), m.r, m.c, rows.size(), s.c_str());
  for (size_t i = 0; i < m.r; i++) {
    VCHECK(rows[i].size() == m.c, "%s: text form of a %zux%zu matrix has %zu entries in row %zu:%s", what.c_str(), m.r, m.c, rows[i].size(), i, s.c_str());
    for (size_t j = 0; j < m.c; j++) VCHECK(rows[i][j] == dec(m.at(i, j)), "%s: text form shows %s at (%zu,%zu), expected %s", what.c_str(), rows[i][j].c_str(), i, j, dec(m.at(i, j)).c_str());
  }
  vh::evals();
}
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

template <class P> M<P> fill(size_t r, size_t c, int pat) {
  M<P> m{r, c, std::vector<u128>(r * c)};
  const u128 p = P::kPrime; u128 base[] = {0, 1, p - 1, p / 2, 12345, p - 2, ((u128)1 << 59) + 7, 99};
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) {
    u128 v;
    switch (pat) { case 0: v = i * 1000 + j * 37 + 1; break; case 1: v = p - 1 - (i * c + j); break; case 2: v = base[(i * 3 + j * 5) % 8]; break; case 3: v = i == j; break; default: v = (u128)(i + 1) * 0x9E3779B97F4A7C15ULL + (u128)(j + 3) * 0xBF58476D1CE4E5B9ULL * (u128)pat; }
    m.at(i, j) = v % p;
  }
  return m;
}
template <class P> M<P> map2(const M<P>& a, const M<P>& b, u128 (*f)(u128, u128)) { M<P> m = a; for (size_t i = 0; i < m.v.size(); i++) m.v[i] = f(a.v[i], b.v[i]); return m; }

// all operations on a pair of same-shaped matrices
template <class P> void pair_same(const M<P>& a, const M<P>& b) {
  Mat<P> x = real(a), y = real(b); const auto S = map2<P>(a, b, addp<P>), D = map2<P>(a, b, subp<P>), H = map2<P>(a, b, mulp<P>);
  same(x.Add(y), S, "sum"); same(x.Subtract(y), D, "difference"); same(x.Multiply(y), H, "entry-wise product");
  same(x, a, "left operand"); same(y, b, "right operand");
  { Mat<P> z(x); auto& r = z.AddInto(y); same(z, S, "in-place sum"); VCHECK(&r == &z, "AddInto returns another object"); }
  { Mat<P> z(x); auto& r = z.SubtractInto(y); same(z, D, "in-place difference"); VCHECK(&r == &z, "SubtractInto returns another object"); }
  { Mat<P> z(x); auto& r = z.MultiplyInto(y); same(z, H, "in-place entry-wise product"); VCHECK(&r == &z, "MultiplyInto returns another object"); }
  { Mat<P> z(x); z.AddInto(z); same(z, map2<P>(a, a, addp<P>), "X += X"); }
  { Mat<P> z(x); z.SubtractInto(z); same(z, map2<P>(a, a, subp<P>), "X -= X"); }
  { Mat<P> z(x); z.MultiplyInto(z); same(z, map2<P>(a, a, mulp<P>), "X *= X"); }
  same(y, b, "right operand");
}
template <class P> void matmul(const M<P>& a, const M<P>& b) {
  Mat<P> x = real(a), y = real(b);
  if (a.c != b.r) { VCHECK(throws([&] { x.MatMul(y); }), "%s: product of %zux%zu and %zux%zu did not throw", what.c_str(), a.r, a.c, b.r, b.c); vh::evals(); return; }
  M<P> m{a.r, b.c, std::vector<u128>(a.r * b.c, 0)};
  for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < b.c; j++) for (size_t k = 0; k < a.c; k++) m.at(i, j) = addp<P>(m.at(i, j), mulp<P>(a.at(i, k), b.at(k, j)));
  same(x.MatMul(y), m, "matrix product"); same(x, a, "left operand of MatMul"); same(y, b, "right operand of MatMul");
  if (a.r == a.c && a.v == b.v) same(x.MatMul(x), m, "X * X");
}
template <class P> void unary(const M<P>& a) {
  Mat<P> x = real(a); const u128 p = P::kPrime;
  for (u128 s : {(u128)0, (u128)1, p - 1, p / 2 + 1, (u128)12345 % p}) {
    FpElement<P> f((typename P::ValueType)s); M<P> m = a; for (auto& v : m.v) v = mulp<P>(v, s);
    same(x.Scale(f), m, "scaled"); same(x, a, "operand of Scale");
    Mat<P> z(x); auto& r = z.ScaleBy(f); same(z, m, "scaled in place"); VCHECK(&r == &z, "ScaleBy returns another object");
  }
  for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) {   // the scalar is an entry of the matrix itself
    Mat<P> z(x); M<P> m = a; for (auto& v : m.v) v = mulp<P>(v, a.at(i, j));
    z.ScaleBy(z(i, j)); same(z, m, "scaled by one of its own entries");
  }
  text(x, a);
}
template <class P> void submatrices(const M<P>& a) {
  Mat<P> x = real(a);
  for (size_t rb = 0; rb <= a.r + 2; rb++) for (size_t re = 0; re <= a.r + 3; re++) for (size_t cb = 0; cb <= a.c + 2; cb++) for (size_t ce = 0; ce <= a.c + 3; ce++) {
    bool valid = rb < re && re <= a.r && cb < ce && ce <= a.c;
    if (valid) {
      M<P> m{re - rb, ce - cb, {}}; for (size_t i = rb; i < re; i++) for (size_t j = cb; j < ce; j++) m.v.push_back(a.at(i, j));
      same(x.extract_submatrix(rb, re, cb, ce), m, "submatrix");
    } else VCHECK(throws([&] { x.extract_submatrix(rb, re, cb, ce); }), "rows %zu..%zu, columns %zu..%zu of a %zux%zu matrix: no exception", rb, re, cb, ce, a.r, a.c);
    vh::evals();
  }
  for (size_t big : {~(size_t)0, ~(size_t)0 - 1, (size_t)1 << 63, (size_t)1 << 32})
    for (int k = 0; k < 4; k++) VCHECK(throws([&] { x.extract_submatrix(k == 0 ? big : 0, k == 1 ? big : 1, k == 2 ? big : 0, k == 3 ? big : 1); }), "huge submatrix bound accepted");
  same(x, a, "operand of extract_submatrix");
}
template <class P> void vectors(size_t n, size_t n2, int pa, int pb) {
  using F = FpElement<P>; typedef typename P::ValueType V;
  M<P> a = fill<P>(1, n ? n : 1, pa), b = fill<P>(1, n2 ? n2 : 1, pb);
  std::vector<F> x, y; for (size_t i = 0; i < n; i++) x.emplace_back((V)a.v[i]); for (size_t i = 0; i < n2; i++) y.emplace_back((V)b.v[i]);
  x.shrink_to_fit(); y.shrink_to_fit();
  auto eq = [&](const std::vector<F>& g, std::function<u128(size_t)> w, size_t len, const char* op) {
    VCHECK(g.size() == len, "%s of vectors of length %zu has length %zu", op, len, g.size());
    for (size_t i = 0; i < len; i++) VCHECK(raw(g[i]) == w(i), "%s of vectors of length %zu: entry %zu", op, len, i);
    vh::evals();
  };
  auto A = [&](size_t i) { return a.v[i]; }; auto B = [&](size_t i) { return b.v[i]; };
  if (n != n2) {
    auto z = x;
    int t = throws([&] { vector::Add(x, y); }) + throws([&] { vector::Subtract(x, y); }) + throws([&] { vector::Multiply(x, y); }) + throws([&] { vector::Dot(x, y); }) +
            throws([&] { vector::AddInto(z, y); }) + throws([&] { vector::SubtractInto(z, y); }) + throws([&] { vector::MultiplyInto(z, y); });
    VCHECK(t == 7, "%d of 7 operations on vectors of lengths %zu and %zu threw", t, n, n2);
    eq(z, A, n, "refused operation"); eq(y, B, n2, "refused operation"); return;
  }
  auto S = [&](size_t i) { return addp<P>(a.v[i], b.v[i]); }; auto D = [&](size_t i) { return subp<P>(a.v[i], b.v[i]); }; auto H = [&](size_t i) { return mulp<P>(a.v[i], b.v[i]); };
  eq(vector::Add(x, y), S, n, "sum"); eq(vector::Subtract(x, y), D, n, "difference"); eq(vector::Multiply(x, y), H, n, "entry-wise product");
  { auto z = x; auto& r = vector::AddInto(z, y); eq(z, S, n, "in-place sum"); VCHECK(&r == &z, "AddInto"); }
  { auto z = x; auto& r = vector::SubtractInto(z, y); eq(z, D, n, "in-place difference"); VCHECK(&r == &z, "SubtractInto"); }
  { auto z = x; auto& r = vector::MultiplyInto(z, y); eq(z, H, n, "in-place product"); VCHECK(&r == &z, "MultiplyInto"); }
  { auto z = x; vector::AddInto(z, z); eq(z, [&](size_t i) { return addp<P>(a.v[i], a.v[i]); }, n, "x += x"); }
  { auto z = x; vector::SubtractInto(z, z); eq(z, [&](size_t) { return (u128)0; }, n, "x -= x"); }
  { auto z = x; vector::MultiplyInto(z, z); eq(z, [&](size_t i) { return mulp<P>(a.v[i], a.v[i]); }, n, "x *= x"); }
  u128 dot = 0, sum = 0, sq = 0; for (size_t i = 0; i < n; i++) { dot = addp<P>(dot, H(i)); sum = addp<P>(sum, a.v[i]); sq = addp<P>(sq, mulp<P>(a.v[i], a.v[i])); }
  VCHECK(raw(vector::Dot(x, y)) == dot, "inner product of length %zu", n); VCHECK(raw(vector::Sum(x)) == sum, "sum over %zu values", n); VCHECK(raw(vector::Dot(x, x)) == sq, "inner product with itself");
  for (u128 s : {(u128)0, (u128)1, (u128)P::kPrime - 1, (u128)77}) {
    F f((V)s); auto W = [&](size_t i) { return mulp<P>(a.v[i], s % P::kPrime); };
    eq(vector::Scale(x, f), W, n, "scaled"); auto z = x; auto& r = vector::ScaleBy(z, f); eq(z, W, n, "scaled in place"); VCHECK(&r == &z, "ScaleBy");
  }
  for (size_t k = 0; k < n; k++) { if (n > 300 && k > 2 && k + 3 < n && k % (n / 8)) continue; vh::progress(); auto z = x; vector::ScaleBy(z, z[k]); eq(z, [&](size_t i) { return mulp<P>(a.v[i], a.v[k]); }, n, "scaled by one of its own entries"); }
  eq(x, A, n, "operand"); eq(y, B, n, "operand");
}
template <class P> void vander(size_t r, size_t c, int pat) {
  using F = FpElement<P>; typedef typename P::ValueType V; const u128 p = P::kPrime;
  auto powm = [&](u128 b, size_t e) { u128 x = 1 % p; for (size_t i = 0; i < e; i++) x = mulp<P>(x, b); return x; };
  M<P> al = fill<P>(1, r, pat); std::vector<F> alphas; for (auto v : al.v) alphas.emplace_back((V)v);
  M<P> m{r, c, {}}; for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m.v.push_back(powm(al.v[i], j));
  same(create_vandermonde_matrix(alphas, c), m, "Vandermonde matrix");
  for (u128 base : {(u128)0, (u128)1, p - 1, p / 2, p - 3}) {
    M<P> w{r, c, {}}; for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) w.v.push_back(powm((base + i) % p, j));
    same(create_vandermonde_matrix(F((V)base), r, c), w, "Vandermonde matrix from a base");
  }
}
template <class P> void shapes(const char* name, size_t R, int pats) {
  for (size_t r = 1; r <= R; r++) for (size_t c = 1; c <= R; c++) {
    if (!vh::begin("%s: %zux%zu, all operations", name, r, c)) continue;
    what = name;
    for (int a = 0; a < pats; a++) {
      auto A = fill<P>(r, c, a); unary(A);
      for (int b = 0; b < pats; b++) {
        pair_same(A, fill<P>(r, c, b));
        for (size_t q = 1; q <= R; q++) for (size_t m = 1; m <= R; m++) {
          auto B = fill<P>(q, m, b); if (q == c || b == 0) matmul(A, B);
          if ((q != r || m != c) && !a && !b) {
            Mat<P> x = real(A), y = real(B);
            int t = throws([&] { x.Add(y); }) + throws([&] { x.AddInto(y); }) + throws([&] { x.Subtract(y); }) + throws([&] { x.SubtractInto(y); }) + throws([&] { x.Multiply(y); }) + throws([&] { x.MultiplyInto(y); });
            VCHECK(t == 6, "%d of 6 operations on %zux%zu and %zux%zu threw", t, r, c, q, m); same(x, A, "operand of a refused operation"); vh::evals(6);
          }
        }
      }
      vander<P>(r, c, a); vh::progress();
    }
    submatrices(fill<P>(r, c, 0));
    vh::distinct_case();
  }
}
template <class P> void contents(const char* name, size_t R) {   // every content of every shape with at most R entries
  const size_t p = (size_t)P::kPrime;
  for (size_t r = 1; r <= R; r++) for (size_t c = 1; r * c <= R; c++) {
    size_t tot = 1; for (size_t i = 0; i < r * c; i++) tot *= p;
    if (!vh::begin("%s: every content of %zux%zu", name, r, c)) continue;
    what = name;
    auto nth = [&](size_t k) { M<P> m{r, c, {}}; for (size_t i = 0; i < r * c; i++) { m.v.push_back(k % p); k /= p; } return m; };
    for (size_t i = 0; i < tot; i++) { unary(nth(i)); for (size_t j = 0; j < tot; j++) { pair_same(nth(i), nth(j)); if (r == c) matmul(nth(i), nth(j)); } vh::progress(); }
    vh::distinct_case();
  }
}
template <class P> void large(const char* name) {
  typedef std::pair<size_t, size_t> D;
  for (D d : std::vector<D>{{1, 17}, {17, 1}, {9, 9}, {8, 7}, {16, 17}, {33, 2}, {2, 33}, {64, 3}, {3, 65}, {1, 257}, {257, 1}, {20, 20}, {40, 30}}) {
    size_t r = d.first, c = d.second;
    if (!vh::begin("%s: %zux%zu, larger shapes", name, r, c)) continue;
    what = name;
    for (int a : {4, 1, 2}) {
      auto A = fill<P>(r, c, a); vh::progress(); if (r * c <= 300) unary(A); text(real(A), A);
      for (int b : {4, 0, 3}) { pair_same(A, fill<P>(r, c, b)); for (size_t m : {(size_t)1, (size_t)2, (size_t)9, (size_t)33, r}) { matmul(A, fill<P>(c, m, b)); matmul(A, fill<P>(c + 1, m, b)); } vh::progress(); }
      vander<P>(r, c, a);
    }
    if (r * c <= 100) submatrices(fill<P>(r, c, 4));
    else {
      auto A = fill<P>(r, c, 4); Mat<P> x = real(A); std::vector<size_t> rs, cs;
      for (size_t k : {(size_t)0, (size_t)1, (size_t)2, (size_t)8, (size_t)9, (size_t)16, r / 2, r - 1, r, r + 1}) rs.push_back(k);
      for (size_t k : {(size_t)0, (size_t)1, (size_t)2, (size_t)8, (size_t)9, (size_t)16, c / 2, c - 1, c, c + 1}) cs.push_back(k);
      for (size_t rb : rs) for (size_t re : rs) for (size_t cb : cs) for (size_t ce : cs) {
        vh::evals();
        if (!(rb < re && re <= r && cb < ce && ce <= c)) { VCHECK(throws([&] { x.extract_submatrix(rb, re, cb, ce); }), "rows %zu..%zu, columns %zu..%zu of a %zux%zu matrix: no exception", rb, re, cb, ce, r, c); continue; }
        M<P> m{re - rb, ce - cb, {}}; for (size_t i = rb; i < re; i++) for (size_t j = cb; j < ce; j++) m.v.push_back(A.at(i, j));
        same(x.extract_submatrix(rb, re, cb, ce), m, "submatrix");
      }
    }
    vh::distinct_case();
  }
  for (size_t n : [&] { std::vector<size_t> v; for (long x : vh::sizes(21, vh::thorough() ? 70000 : 8200)) v.push_back((size_t)x); return v; }()) {
    if (!vh::begin("%s: vectors of length %zu", name, n)) continue;
    vectors<P>(n, n, 4, 1); vectors<P>(n, n, 1, 4); vectors<P>(n, n, 1, 1); vectors<P>(n, n - 1, 4, 4); vectors<P>(n - 1, n, 4, 4); vectors<P>(n, 0, 4, 0); vh::distinct_case();
  }
}
int main(int argc, char** argv) {
  vh::init(argc, argv); bool th = vh::thorough();
  for (size_t n = 0; n <= (th ? 40u : 20u); n++) {
    if (!vh::begin("vectors of length %zu", n)) continue;
    for (size_t m = 0; m <= (th ? 40u : 20u); m++) for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) { if (m != n && (a || b)) continue; vectors<Mp61>(n, m, a, b); vectors<Mp127>(n, m, a, b); vectors<Tiny<5>>(n, m, a, b); }
    vh::distinct_case();
  }
  if (vh::begin("matrices without rows or columns are refused")) {
    for (size_t k = 0; k < 5; k++) { VCHECK(throws([&] { Mat<Mp61> x(0, k); }) && throws([&] { Mat<Mp61> x(k, 0); }), "0 dimension accepted"); vh::evals(2); }
    VCHECK(throws([&] { create_vandermonde_matrix(std::vector<FpElement<Mp61>>(), 3); }) && throws([&] { create_vandermonde_matrix(FpElement<Mp61>(1), 3, 0); }), "empty Vandermonde matrix accepted");
    vh::distinct_case();
  }
  shapes<Mp61>("Mp61", th ? 8 : 6, 5); shapes<Mp127>("Mp127", th ? 6 : 4, 4); shapes<Tiny<7>>("F_7", 5, 5);
  contents<Tiny<2>>("F_2", th ? 6 : 4); contents<Tiny<3>>("F_3", 4);
  large<Mp61>("Mp61"); large<Mp127>("Mp127"); large<Tiny<7>>("F_7");
  vh::finish();
}
