// C21: field arithmetic against limb arithmetic. The space is every pair drawn from all values
// of the forms 2^i +- 2^j and 2^i +- c (plus p-x of them), every operation, both primes; every
// residue and pair for a set of tiny moduli for the generic helpers; every odd value of up to
// 16 bits (and the pattern set) for the inverses modulo powers of two.
#include <set>

#include "frn/lib/math/arithmetic.h"
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
#include "vh.h"
using u64 = uint64_t; using u32 = uint32_t; using u128 = __uint128_t; using i128 = __int128_t;
using namespace frn::lib::math;

static std::string s128(u128 v) { char b[64]; snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return b; }

// ---------- reference: value mod p by limbs
template <class P> struct Ref;
template <> struct Ref<Mp61> {
  static constexpr int K = 61; static constexpr u128 p = ((u128)1 << 61) - 1;
  static u128 mul(u128 a, u128 b) { return (a * b) % p; }
};
template <> struct Ref<Mp127> {
  static constexpr int K = 127; static constexpr u128 p = ((u128)1 << 127) - 1;
  static u128 mul(u128 a, u128 b) {
    u32 x[4], y[4]; u64 z[8] = {0};
    for (int i = 0; i < 4; i++) { x[i] = (u32)(a >> (32 * i)); y[i] = (u32)(b >> (32 * i)); }
    for (int i = 0; i < 4; i++) { u64 c = 0; for (int j = 0; j < 4; j++) { u64 t = z[i + j] + (u64)x[i] * y[j] + c; z[i + j] = (u32)t; c = t >> 32; } z[i + 4] += c; }
    u128 lo = 0, hi = 0;
    for (int i = 3; i >= 0; i--) { lo = (lo << 32) | (u32)z[i]; hi = (hi << 32) | (u32)z[i + 4]; }
    // hi * 2^128 + lo, 2^127 = 1 (mod p)
    u128 r = lo & p, t = (lo >> 127) + (hi << 1);   // hi < 2^126, no overflow
    t = (t & p) + (t >> 127);
    r += t; r = (r & p) + (r >> 127); if (r == p) r = 0;
    return r;
  }
};
template <class P> u128 slow_mul(u128 a, u128 b) {
  const u128 p = Ref<P>::p; u128 r = 0;
  while (b) { if (b & 1) { r += a; if (r >= p) r -= p; } a += a; if (a >= p) a -= p; b >>= 1; }
  return r;
}
template <class P> u128 refpow(u128 a, u128 e) { u128 r = 1; while (e) { if (e & 1) r = Ref<P>::mul(r, a); a = Ref<P>::mul(a, a); e >>= 1; } return r; }
template <class P> u128 raw(const FpElement<P>& x) {
  unsigned char b[sizeof(typename P::ValueType)]; x.ToBytes(b);
  u128 v = 0; for (int i = (int)sizeof b - 1; i >= 0; i--) v = (v << 8) | b[i];
  return v;
}

// ---------- pattern sets: level 0 boundary values, 1 2^i +- small, 2 2^i +- 2^j
template <class P> std::vector<u128> patterns(int level) {
  const int K = Ref<P>::K; const u128 p = Ref<P>::p;
  std::set<u128> s;
  auto put = [&](u128 v) { v %= p; s.insert(v); s.insert(v ? p - v : 0); };
  for (u128 c = 0; c < 20; c++) put(c);
  put(((u128)1 << (K / 2)) - 1); put(0x123456789abcdefULL); put(((u128)0xfedcba9876543210ULL << 64) | 0x0f1e2d3c4b5a6978ULL);
  put(~(u128)0 / 3); put(~(u128)0 / 5);
  if (level >= 1) for (int i = 0; i < K; i++) for (int c = -3; c <= 3; c++) put(((u128)1 << i) + p + (u128)(i128)c);
  if (level == 2) for (int i = 0; i < K; i++) for (int j = 0; j < i; j++) { put(((u128)1 << i) - ((u128)1 << j)); put(((u128)1 << i) + ((u128)1 << j)); }
  return std::vector<u128>(s.begin(), s.end());
}
static const char* opn;
template <class P> void check(const FpElement<P>& got, u128 want, u128 a, u128 b, const char* what) {
  u128 g = raw(got);
  if (g != want) vh::fail("mod 2^%d-1: %s of %s and %s is %s, expected %s", Ref<P>::K, what, s128(a).c_str(), s128(b).c_str(), s128(g).c_str(), s128(want).c_str());
}
template <class P> void pair_ops(u128 a, u128 b) {
  using F = FpElement<P>; using V = typename P::ValueType; const u128 p = Ref<P>::p;
  const F x{(V)a}, y{(V)b};
  u128 s = (a + b) % p, d = a >= b ? a - b : a + (p - b), m = Ref<P>::mul(a, b);
  check<P>(x + y, s, a, b, "sum"); check<P>(x - y, d, a, b, "difference"); check<P>(x * y, m, a, b, "product");
  F t = x; F& r1 = (t += y); check<P>(t, s, a, b, "in-place sum"); if (&r1 != &t) vh::fail("+= does not return its left operand");
  t = x; t -= y; check<P>(t, d, a, b, "in-place difference");
  t = x; t *= y; check<P>(t, m, a, b, "in-place product");
  if ((x == y) != (a == b) || (x != y) != (a != b) || x.Equal(y) != (a == b) || x.NotEqual(y) != (a != b)) vh::fail("mod 2^%d-1: comparison of %s and %s is wrong", Ref<P>::K, s128(a).c_str(), s128(b).c_str());
  if (raw(x) != a || raw(y) != b) vh::fail("an operand was modified");
  vh::evals(4);
}
template <class P> void div_ops(u128 a, u128 b) {
  using F = FpElement<P>; using V = typename P::ValueType;
  const F x{(V)a}, y{(V)b};
  if (b == 0) {
    bool threw = false; F t = x;
    try { t /= y; } catch (const std::exception&) { threw = true; }
    if (!threw) vh::fail("division by zero in place did not throw");
    if (raw(t) != a) vh::fail("a refused division changed its operand");
    threw = false;
    try { (void)(x / y); } catch (const std::exception&) { threw = true; }
    if (!threw) vh::fail("division by zero did not throw");
  } else {
    F q = x / y;
    if (raw(q) >= Ref<P>::p || Ref<P>::mul(raw(q), b) != a) vh::fail("mod 2^%d-1: quotient of %s by %s is %s", Ref<P>::K, s128(a).c_str(), s128(b).c_str(), s128(raw(q)).c_str());
    F t = x; t /= y;
    if (raw(t) != raw(q)) vh::fail("in-place division differs from division");
  }
  vh::evals();
}
template <class P> void unary(u128 a) {
  using F = FpElement<P>; using V = typename P::ValueType; const u128 p = Ref<P>::p;
  const F x{(V)a};
  check<P>(x, a, a, a, "construction");
  check<P>(-x, a ? p - a : 0, a, a, "negation");
  F t = x; F& r = t.Negate(); check<P>(t, a ? p - a : 0, a, a, "in-place negation"); if (&r != &t) vh::fail("Negate returns another object");
  t = x; t += t; check<P>(t, (a + a) % p, a, a, "x += x");
  t = x; t -= t; check<P>(t, 0, a, a, "x -= x");
  t = x; t *= t; check<P>(t, Ref<P>::mul(a, a), a, a, "x *= x");
  check<P>(x + F::kZero, a, a, 0, "x + 0"); check<P>(x * F::kOne, a, a, 1, "x * 1"); check<P>(x * F::kZero, 0, a, 0, "x * 0");
  if (a) {
    u128 inv = refpow<P>(a, p - 2);
    check<P>(x.Inverse(), inv, a, a, "inverse");
    t = x; t.Invert(); check<P>(t, inv, a, a, "in-place inverse");
    t = x; t /= t; check<P>(t, 1, a, a, "x /= x");
  } else {
    int n = 0; t = x;
    try { t.Invert(); } catch (const std::exception&) { n++; }
    try { (void)x.Inverse(); } catch (const std::exception&) { n++; }
    try { t /= t; } catch (const std::exception&) { n++; }
    if (n != 3) vh::fail("inverting zero did not throw");
  }
  if (raw(x) != a) vh::fail("an operand was modified");
  vh::evals(8);
}
template <class P> void construct(u128 v) {   // any machine value, not only canonical ones
  using V = typename P::ValueType;
  V w = (V)v; u128 want = (u128)w % Ref<P>::p;
  check<P>(FpElement<P>{w}, want, v, v, "construction");
  vh::evals();
}
template <class P> void run_prime(int level, int divlevel) {
  auto A = patterns<P>(level); auto D = patterns<P>(divlevel);
  const int chunk = 16;
  for (size_t lo = 0; lo < A.size(); lo += chunk) {
    if (!vh::begin("p=2^%d-1 pairs: rows %zu.. of %zu", Ref<P>::K, lo, A.size())) continue;
    for (size_t i = lo; i < A.size() && i < lo + chunk; i++) { vh::progress(); vh::distinct(vh::mix((u64)A[i], (u64)(A[i] >> 64) + Ref<P>::K)); unary<P>(A[i]); for (auto b : A) pair_ops<P>(A[i], b); }
  }
  for (size_t lo = 0; lo < D.size(); lo += chunk) {
    if (!vh::begin("p=2^%d-1 quotients: rows %zu.. of %zu", Ref<P>::K, lo, D.size())) continue;
    for (size_t i = lo; i < D.size() && i < lo + chunk; i++) { vh::progress(); for (auto b : D) div_ops<P>(D[i], b); }
  }
  if (vh::begin("p=2^%d-1 construction, constants, reference self-check", Ref<P>::K)) {
    for (auto a : A) { for (u128 k = 0; k < 9; k++) construct<P>(a + k * Ref<P>::p); construct<P>(~a); construct<P>(a << 3); }
    using F = FpElement<P>;
    if (raw(F()) != 0 || raw(F::kZero) != 0 || raw(F::kOne) != 1 || raw(F::template FromConstant<12345>()) != 12345) vh::fail("constants");
    if (F::ByteSize() != sizeof(typename P::ValueType) || F::BitSize() != 8 * F::ByteSize()) vh::fail("element sizes");
    auto S = patterns<P>(0);
    for (auto a : S) for (auto b : S) if (Ref<P>::mul(a, b) != slow_mul<P>(a, b)) vh::die("reference multiplication is wrong");
    for (auto a : S) for (auto b : A) if (Ref<P>::mul(a, b) != slow_mul<P>(a, b)) vh::die("reference multiplication is wrong");
  }
}

// ---------- the generic templates over tiny prime fields, exhaustively
template <u64 N> struct Tiny : public Prime<Tiny<N>, u64, int64_t> {
  using ValueType = u64; static constexpr u64 kPrime = N;
  static u64 Multiply(const u64& a, const u64& b) { return a * b % N; }
};
template <u64 N> void tiny_field() {
  if (!vh::begin("all of F_%llu", (unsigned long long)N)) return;
  using T = Tiny<N>; using F = FpElement<T>;
  auto R = [](const F& f) { u64 v; f.ToBytes((unsigned char*)&v); return v; };
  for (u64 a = 0; a < N; a++) {
    F x(a), t = x;
    VCHECK(R(-x) == (N - a) % N, "F_%llu: -%llu", (unsigned long long)N, (unsigned long long)a);
    if (a) { VCHECK(R(x.Inverse()) * a % N == 1 && R(x.Inverse()) < N, "F_%llu: 1/%llu", (unsigned long long)N, (unsigned long long)a); }
    t = x; t -= t; VCHECK(R(t) == 0, "F_%llu: x -= x", (unsigned long long)N); t = x; t += t; VCHECK(R(t) == 2 * a % N, "F_%llu: x += x", (unsigned long long)N);
    for (u64 b = 0; b < N; b++) {
      F y(b);
      VCHECK(R(x + y) == (a + b) % N && R(x - y) == (a + N - b) % N && R(x * y) == a * b % N, "F_%llu: %llu op %llu", (unsigned long long)N, (unsigned long long)a, (unsigned long long)b);
      VCHECK((x == y) == (a == b) && (x != y) == (a != b), "F_%llu: comparison", (unsigned long long)N);
      if (b) VCHECK(R(x / y) < N && R(x / y) * b % N == a, "F_%llu: %llu / %llu", (unsigned long long)N, (unsigned long long)a, (unsigned long long)b);
      vh::evals(4);
    }
  }
}
template <class T, class S> void helpers(T n, const std::vector<T>& vals, const char* nm) {   // n: any modulus in range
  namespace d = frn::lib::math::details;
  for (T a : vals) {
    u128 A = a, Nn = n;
    VCHECK((u128)d::red<T>(a, n) == A % Nn, "%s red(%s, %s)", nm, s128(A).c_str(), s128(Nn).c_str());
    vh::evals();
    if (a >= n) continue;
    VCHECK((u128)d::neg<T>(a, n) == (Nn - A) % Nn, "%s neg(%s, %s)", nm, s128(A).c_str(), s128(Nn).c_str());
    // invertible exactly when gcd is 1
    u128 g = Nn, h = A; while (h) { u128 t = g % h; g = h; h = t; }
    bool threw = false; T iv = 0;
    try { iv = d::invp<T, S>(a, n); } catch (const std::logic_error&) { threw = true; }
    if (a != 0 && g == 1) {
      VCHECK(!threw && iv < n, "%s invp(%s, %s) refused or out of range", nm, s128(A).c_str(), s128(Nn).c_str());
      u128 r = 0, x = A, e = iv; while (e) { if (e & 1) r = (r + x) % Nn; x = (x + x) % Nn; e >>= 1; }
      VCHECK(r == 1 % Nn, "%s invp(%s, %s)", nm, s128(A).c_str(), s128(Nn).c_str());
    } else VCHECK(threw, "%s invp(%s, %s) did not throw", nm, s128(A).c_str(), s128(Nn).c_str());
    for (T b : vals) {
      if (b >= n) continue;
      u128 B = b;
      VCHECK((u128)d::addm<T>(a, b, n) == (A + B) % Nn, "%s addm(%s, %s, %s)", nm, s128(A).c_str(), s128(B).c_str(), s128(Nn).c_str());
      VCHECK((u128)d::subm<T>(a, b, n) == (A + Nn - B) % Nn, "%s subm(%s, %s, %s)", nm, s128(A).c_str(), s128(B).c_str(), s128(Nn).c_str());
      VCHECK(d::eq<T>(a, b) == (A == B), "%s eq", nm);
      vh::evals(2);
    }
  }
}
// ---------- inverses modulo 2^K
template <class T, size_t K> void inv2_one(const std::vector<u128>& vals, int bits) {
  namespace d = frn::lib::math::details;
  auto one = [&](T v) {
    bool threw = false; T z = 0;
    try { z = d::inv2<K, T>(v); } catch (const std::logic_error&) { threw = true; }
    if (v & 1) { u128 prod = (u128)v * z; u128 mask = K == 128 ? ~(u128)0 : (((u128)1 << (K % 128)) - 1); VCHECK(!threw && (prod & mask) == (1 & mask), "inv2<%zu>(%s) = %s", K, s128(v).c_str(), s128(z).c_str()); }
    else VCHECK(threw, "inv2<%zu>(%s) did not throw", K, s128(v).c_str());
    vh::evals();
  };
  u64 lim = (u64)1 << (K < (size_t)bits ? K : (size_t)bits);
  for (u64 v = 0; v < lim; v++) one((T)v);
  for (auto v : vals) { one((T)v); one((T)v | 1); one((T) ~v); }
}
template <class T, size_t... Ks> void inv2_all(const std::vector<u128>& vals, int bits, const char* nm, std::index_sequence<Ks...>) {
  (void)std::initializer_list<int>{(vh::begin("inverses modulo 2^%zu (%s)", Ks + 1, nm) ? (inv2_one<T, Ks + 1>(vals, bits), vh::distinct_case(), 0) : 0)...};
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  bool th = vh::thorough();
  run_prime<Mp61>(2, 1);
  run_prime<Mp127>(1, th ? 1 : 0);
  {
    auto A = patterns<Mp127>(2), B = patterns<Mp127>(th ? 1 : 0);
    for (size_t k = 0; k < 512; k++) {
      if (!vh::begin("p=2^127-1: part %zu of the 2^i+-2^j values against the %s values", k, th ? "2^i+-c" : "boundary")) continue;
      for (size_t i = k; i < A.size(); i += 512) {
        if (!th) unary<Mp127>(A[i]);
        for (auto b : B) pair_ops<Mp127>(A[i], b);
        vh::progress(); vh::distinct(vh::mix((u64)A[i], (u64)(A[i] >> 64) + 127));
      }
    }
    if (th) for (size_t i = 0; i < A.size(); i += 8) {   // and against each other
      if (!vh::begin("p=2^127-1: rows %zu.. of the 2^i+-2^j pairs", i)) continue;
      for (size_t a = i; a < A.size() && a < i + 8; a++) { for (auto b : A) pair_ops<Mp127>(A[a], b); vh::progress(); }
    }
  }
  tiny_field<2>(); tiny_field<3>(); tiny_field<5>(); tiny_field<7>(); tiny_field<13>(); tiny_field<31>(); tiny_field<127>(); tiny_field<251>();
  for (int n = 1; n <= (th ? 255 : 96); n++) {
    if (!vh::begin("generic helpers, modulus %d, all operands", n)) continue;
    std::vector<u64> v; std::vector<u32> v32; std::vector<u128> v128; std::vector<uint16_t> v16; std::vector<int64_t> vi;
    for (int i = 0; i < 2 * n + 2; i++) { v.push_back((u64)i); v32.push_back((u32)i); v128.push_back((u128)i); v16.push_back((uint16_t)i); }
    if (n > 1) { helpers<u64, int64_t>((u64)n, v, "u64"); helpers<u32, int64_t>((u32)n, v32, "u32"); helpers<u128, i128>((u128)n, v128, "u128"); helpers<uint16_t, int32_t>((uint16_t)n, v16, "u16"); }
    vh::distinct_case();
  }
  {   // large moduli: around every power of two in range
    auto P = patterns<Mp127>(1);
    for (int k = 8; k <= 126; k++) for (int c = -3; c <= 3; c++) {
      if (!vh::begin("generic helpers, modulus 2^%d%+d, pattern operands", k, c)) continue;
      u128 n = ((u128)1 << k) + (u128)(i128)c;
      std::set<u128> s; for (u128 i = 0; i < 4; i++) { s.insert(i); s.insert(n - 1 - i); s.insert(n / 2 + i); s.insert(n / 2 - i); s.insert(n / 3 + i); s.insert(n / 5 + i); }
      for (int j = 0; j <= k; j += 5) { s.insert((u128)1 << j); s.insert(((u128)1 << j) - 1); }
      if (k <= 62) { std::vector<u64> v; for (auto x : s) v.push_back((u64)x); helpers<u64, int64_t>((u64)n, v, "u64"); }
      if (k <= 30) { std::vector<u32> v; for (auto x : s) v.push_back((u32)x); helpers<u32, int64_t>((u32)n, v, "u32"); }
      if (k <= 125) { std::vector<u128> v(s.begin(), s.end()); helpers<u128, i128>(n, v, "u128"); }
      vh::distinct_case();
    }
  }
  auto pv = patterns<Mp127>(1);
  inv2_all<u32>(pv, th ? 20 : 14, "u32", std::make_index_sequence<32>());
  inv2_all<u64>(pv, th ? 20 : 12, "u64", std::make_index_sequence<64>());
  inv2_all<u128>(pv, 10, "u128", std::make_index_sequence<128>());
  vh::finish();
}
