// C22: byte, decimal, hexadecimal and list renderings of elements, against plain arithmetic.
#include <set>
#include <sstream>
#include <list>

#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
#include "frn/lib/math/vec.h"
#include "frn/lib/secret_sharing/rep.h"
#include "frn/lib/tools.h"
#include "vh.h"
using u64 = uint64_t; using u128 = __uint128_t;
using namespace frn::lib::math;
namespace ut = frn::lib::utils;

template <class P> struct Par { static constexpr u128 p = P::kPrime; static constexpr size_t B = sizeof(typename P::ValueType); static constexpr int K = B == 8 ? 61 : 127; };
static std::string dec(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } return s; }
template <class P> std::vector<u128> values(bool wide) {   // any machine value of the representation
  std::set<u128> s; const int W = (int)Par<P>::B * 8; const u128 m = W == 128 ? ~(u128)0 : (((u128)1 << (W % 128)) - 1);
  auto put = [&](u128 v) { s.insert(v & m); };
  for (u128 i = 0; i < 130; i++) { put(i); put(Par<P>::p - i); put(Par<P>::p + i); put(m - i); }
  for (int i = 0; i < W; i++) for (int c = -2; c <= 2; c++) put(((u128)1 << i) + (u128)(__int128_t)c);
  for (int i = 0; i < W / 8; i++) for (int b = 0; b < 256; b += wide ? 1 : 5) { put((u128)b << (8 * i)); put(m ^ ((u128)b << (8 * i))); }
  u128 t = 1; for (int i = 0; i < 39; i++, t *= 10) { put(t); put(t - 1); put(t + 1); put(9 * t); }
  put(0x0123456789abcdefULL); put(((u128)0x0123456789abcdefULL << 64) | 0xfedcba9876543210ULL);
  return std::vector<u128>(s.begin(), s.end());
}
template <class P> u128 raw(const FpElement<P>& x) { unsigned char b[16]; x.ToBytes(b); u128 v = 0; for (int i = (int)Par<P>::B - 1; i >= 0; i--) v = (v << 8) | b[i]; return v; }

template <class P> void single(u128 v) {
  using F = FpElement<P>; using V = typename P::ValueType; const size_t B = Par<P>::B;
  u128 want = v % Par<P>::p;
  F x{(V)v};
  for (size_t off = 0; off < 16; off++) {           // destinations at every alignment
    unsigned char buf[64]; for (unsigned char fill : {0x00, 0xA5, 0xFF}) {
      memset(buf, fill, sizeof buf); x.ToBytes(buf + 16 + off);
      for (size_t i = 0; i < sizeof buf; i++) {
        unsigned char w = i >= 16 + off && i < 16 + off + B ? (unsigned char)(want >> (8 * (i - 16 - off))) : fill;
        VCHECK(buf[i] == w, "ToBytes of %s: byte %ld of the destination is %02x, expected %02x", dec(v).c_str(), (long)i - 16 - (long)off, buf[i], w);
      }
    }
    // arbitrary bytes read as their value modulo p
    memset(buf, 0x5A, sizeof buf); for (size_t i = 0; i < B; i++) buf[16 + off + i] = (unsigned char)(v >> (8 * i));
    F y = F::FromBytes(buf + 16 + off);
    VCHECK(raw(y) == want, "FromBytes of %s gives %s", dec(v).c_str(), dec(raw(y)).c_str());
    vh::evals(2);
  }
  VCHECK(x.ToString() == dec(want), "ToString of %s is %s", dec(want).c_str(), x.ToString().c_str());
  std::ostringstream os; os << x; VCHECK(os.str() == dec(want), "<< of %s is %s", dec(want).c_str(), os.str().c_str());
  F z{dec(v)}; VCHECK(raw(z) == want, "parsing %s gives %s", dec(v).c_str(), dec(raw(z)).c_str());
  for (int k = 1; k <= 3; k++) { F w{std::string((size_t)k, '0') + dec(v)}; VCHECK(raw(w) == want, "parsing %s with %d leading zeros", dec(v).c_str(), k); }
  F r{x.ToString()}; VCHECK(r == x, "print and parse of %s", dec(want).c_str());
  VCHECK(ut::to_string<V>((V)v) == dec(v), "to_string(%s) is %s", dec(v).c_str(), ut::to_string<V>((V)v).c_str());
  VCHECK((u128)ut::from_string<V>(dec(v)) == v, "from_string(%s)", dec(v).c_str());
  vh::evals(6); vh::distinct(vh::mix((u64)v, (u64)(v >> 64) + Par<P>::B));
}
template <class P> void lists(const std::vector<u128>& vals, size_t len, size_t start) {
  using F = FpElement<P>; using V = typename P::ValueType; const size_t B = Par<P>::B;
  std::vector<F> v; std::vector<u128> w;
  for (size_t i = 0; i < len; i++) { u128 x = vals[(start + i * 37) % vals.size()]; v.emplace_back((V)x); w.push_back(x % Par<P>::p); }
  for (size_t off : {0, 1, 5, 8}) {
    std::vector<unsigned char> buf(64 + len * B, 0xC3);
    vector::ToBytes(buf.data() + 32 + off, v);
    for (size_t i = 0; i < buf.size(); i++) {
      long k = (long)i - 32 - (long)off;
      unsigned char e = k >= 0 && k < (long)(len * B) ? (unsigned char)(w[(size_t)k / B] >> (8 * ((size_t)k % B))) : 0xC3;
      VCHECK(buf[i] == e, "list of %zu: byte %ld is %02x, expected %02x", len, k, buf[i], e);
    }
    // exactly sized source on the heap: reading beyond it is caught by ASan
    std::vector<unsigned char> ex(buf.begin() + 32 + (long)off, buf.begin() + 32 + (long)off + (long)(len * B));
    ex.shrink_to_fit();
    auto back = vector::FromBytes<F>(ex.data(), len);
    VCHECK(back.size() == len, "FromBytes returned %zu of %zu elements", back.size(), len);
    for (size_t i = 0; i < len; i++) VCHECK(back[i] == v[i], "element %zu of %zu changed in a round trip", i, len);
    auto back2 = vector::FromBytes<F>(buf.data() + 32 + off, len);
    for (size_t i = 0; i < len; i++) VCHECK(back2[i] == v[i], "element %zu of %zu changed in an unaligned round trip", i, len);
    for (size_t part = 0; part < len && part < 5; part++) { auto f = vector::FromBytes<F>(ex.data(), part); VCHECK(f.size() == part, "FromBytes of %zu", part); }
    vh::evals(3);
  }
}
static std::string want_list(const std::vector<std::string>& e) {
  std::string s = "#["; size_t n = e.size() < 5 ? e.size() : 5;
  for (size_t i = 0; i < n; i++) { if (i) s += ", "; s += e[i]; }
  if (e.size() == 6) s += ", ... (1 more element)"; else if (e.size() > 6) s += ", ... (" + std::to_string(e.size() - 5) + " more elements)";
  return s + "]";
}
template <size_t K> void array_one() {
  std::array<u64, K> a; std::vector<std::string> e; for (size_t i = 0; i < K; i++) { a[i] = i * 1000003; e.push_back(std::to_string(a[i])); }
  VCHECK(ut::to_string(a) == want_list(e), "array of %zu prints %s", K, ut::to_string(a).c_str()); vh::evals();
}
template <size_t... Ks> void arrays(std::index_sequence<Ks...>) { (void)std::initializer_list<int>{(array_one<Ks + 1>(), 0)...}; }

int main(int argc, char** argv) {
  vh::init(argc, argv); bool th = vh::thorough();
  auto prime = [&](auto tag) {
    using P = decltype(tag); auto vals = values<P>(th);
    for (int k = 0; k < 32; k++) {
      if (!vh::begin("single values of F_(2^%d-1), part %d", Par<P>::K, k)) continue;
      for (size_t i = (size_t)k; i < vals.size(); i += 32) { single<P>(vals[i]); vh::progress(); }
    }
    for (size_t len = 0; len <= (th ? 300 : 70); len++) {
      if (!vh::begin("lists of %zu elements of F_(2^%d-1)", len, Par<P>::K)) continue;
      for (size_t st = 0; st < (th ? vals.size() : 60); st += 3) lists<P>(vals, len, st);
      vh::distinct_case();
    }
    for (long len : vh::sizes(71, th ? 300000 : 70000)) {
      if (!vh::begin("lists of %ld elements of F_(2^%d-1)", len, Par<P>::K)) continue;
      lists<P>(vals, (size_t)len, (size_t)len % vals.size()); vh::distinct_case();
    }
    for (size_t len = 0; len <= 300; len += (len < 20 ? 1 : 7)) {
      if (!vh::begin("text of lists of %zu elements of F_(2^%d-1)", len, Par<P>::K)) continue;
      std::vector<FpElement<P>> v; std::vector<std::string> e;
      for (size_t i = 0; i < len; i++) { v.emplace_back((typename P::ValueType)vals[i % vals.size()]); e.push_back(dec(vals[i % vals.size()] % Par<P>::p)); }
      VCHECK(ut::to_string(v) == want_list(e), "list of %zu prints %s", len, ut::to_string(v).c_str());
      std::list<FpElement<P>> l(v.begin(), v.end()); VCHECK(ut::to_string(l.begin(), l.size()) == want_list(e), "iterator list of %zu", len);
      vh::evals(2); vh::distinct_case();
    }
  };
  prime(Mp61()); prime(Mp127());
  if (vh::begin("text of arrays of 1..20 integers")) { arrays(std::make_index_sequence<20>()); vh::distinct_case(); }
  for (size_t len = 0; len <= 2; len++) for (int hi = 0; hi < (len == 2 ? 256 : 1); hi++) {
    if (!vh::begin("all byte strings of length %zu, first byte %d: hexadecimal", len, len == 2 ? hi : -1)) continue;
    for (int lo = 0; lo < (len ? 256 : 1); lo++) {
      unsigned char b[2] = {(unsigned char)(len == 2 ? hi : lo), (unsigned char)lo}; std::string w; char t[8];
      for (size_t i = 0; i < len; i++) { snprintf(t, sizeof t, "%s%02X", i ? " " : "", b[i]); w += t; }
      std::vector<unsigned char> ex(b, b + len);
      VCHECK(ut::bytes2hex(ex.data(), len) == w, "bytes2hex gives %s, expected %s", ut::bytes2hex(ex.data(), len).c_str(), w.c_str()); vh::evals();
    }
    vh::distinct_case();
  }
  for (size_t len : [&] { std::vector<size_t> v; for (size_t i = 3; i <= 70; i++) v.push_back(i); for (long x : vh::sizes(71, 70000)) v.push_back((size_t)x); return v; }()) {
    if (!vh::begin("hexadecimal of strings of %zu bytes", len)) continue;
    for (int a = 0; a < 256; a += len > 1000 ? 85 : 3) {
      std::vector<unsigned char> b(len); std::string w; char t[8];
      for (size_t i = 0; i < len; i++) { b[i] = (unsigned char)(a + (int)i * 29); snprintf(t, sizeof t, "%s%02X", i ? " " : "", b[i]); w += t; }
      VCHECK(ut::bytes2hex(b.data(), len) == w, "bytes2hex of %zu bytes", len); vh::evals();
    }
    vh::distinct_case();
  }
  vh::finish();
}
