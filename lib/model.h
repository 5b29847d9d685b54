// Reference models written from the documentation, independent of the code under test.
#ifndef MODEL_H
#define MODEL_H
#include <stdint.h>
#include <string.h>
#include <map>
#include <string>
#include <vector>

namespace model {

typedef unsigned __int128 u128;
typedef uint64_t u64;

// ---- arithmetic modulo the field's prime (P is a macro so that the tiny-field builds can change it)
#ifndef MODEL_P
#define MODEL_P 0x1FFFFFFFFFFFFFFFULL
#endif
constexpr u64 P = MODEL_P;
inline u64 red(u128 x) { return (u64)(x % P); }
inline u64 add(u64 a, u64 b) { return red((u128)a + b); }
inline u64 sub(u64 a, u64 b) { return red((u128)a + P - b); }
inline u64 mul(u64 a, u64 b) { return red((u128)a * b); }
inline u64 neg(u64 a) { return a ? P - a : 0; }

// ---- placement: subsets of {0..n-1} of size k in lexicographic order, as bit masks
inline void subsets_rec(int n, int k, int from, unsigned m, std::vector<unsigned>& out) {
  if (!k) { out.push_back(m); return; }
  for (int i = from; i <= n - k; i++) subsets_rec(n, k - 1, i + 1, m | (1u << i), out);
}
inline const std::vector<unsigned>& subsets(int n, int k) {
  static std::map<std::pair<int, int>, std::vector<unsigned>> memo;
  auto it = memo.find({n, k});
  if (it != memo.end()) return it->second;
  std::vector<unsigned> out;
  if (k >= 0 && k <= n) subsets_rec(n, k, 0, 0, out);
  return memo[{n, k}] = out;
}
inline u64 binom(int n, int k) {       // Pascal
  if (k < 0 || k > n) return 0;
  std::vector<u64> row(k + 1, 0); row[0] = 1;
  for (int i = 1; i <= n; i++) for (int j = std::min(i, k); j > 0; j--) row[j] += row[j - 1];
  return row[k];
}
// Placement of an (n,t) replicated sharing.
struct Placement {
  int n, t;
  std::vector<unsigned> sets;                // additive share -> holders
  std::vector<std::vector<int>> of;          // party -> additive share indices, increasing
  std::map<unsigned, int> index;
  Placement(int n_, int t_) : n(n_), t(t_), sets(subsets(n_, n_ - t_)), of(n_) {
    for (size_t s = 0; s < sets.size(); s++) {
      index[sets[s]] = (int)s;
      for (int i = 0; i < n; i++) if (sets[s] >> i & 1) of[i].push_back((int)s);
    }
  }
  int share_size() const { return (int)of[0].size(); }
  int add_size() const { return (int)sets.size(); }
  int pos(int party, int s) const {          // position of additive share s in party's share, or -1
    for (size_t k = 0; k < of[party].size(); k++) if (of[party][k] == s) return (int)k;
    return -1;
  }
};
inline const Placement& placement(int n, int t) {
  static std::map<std::pair<int, int>, Placement*> memo;
  auto& p = memo[{n, t}];
  if (!p) p = new Placement(n, t);
  return *p;
}
inline unsigned first_k(unsigned set, int k) {   // the k lowest members
  unsigned r = 0;
  for (int i = 0; i < 32 && k; i++) if (set >> i & 1) { r |= 1u << i; k--; }
  return r;
}
inline int lowest(unsigned set) { return __builtin_ctz(set); }

// Checks that the parties' shares (already turned into integers) form a consistent (n,t) sharing.
// Returns "" and the secret, or a description of the inconsistency.
inline std::string consistent(const std::vector<std::vector<u64>>& sh, int n, int t, u64* secret,
                              std::vector<u64>* adds = nullptr) {
  const Placement& pl = placement(n, t);
  if ((int)sh.size() != n) return "wrong number of shares";
  std::vector<u64> a(pl.add_size(), 0); std::vector<char> have(pl.add_size(), 0);
  for (int i = 0; i < n; i++) {
    if ((int)sh[i].size() != pl.share_size())
      return "share of party " + std::to_string(i) + " has " + std::to_string(sh[i].size()) + " elements, expected " + std::to_string(pl.share_size());
    for (int k = 0; k < pl.share_size(); k++) {
      int s = pl.of[i][k];
      if (sh[i][k] >= P) return "non-canonical element";
      if (!have[s]) { have[s] = 1; a[s] = sh[i][k]; }
      else if (a[s] != sh[i][k]) return "copies of additive share " + std::to_string(s) + " differ (party " + std::to_string(i) + ")";
    }
  }
  u64 v = 0;
  for (u64 x : a) v = add(v, x);
  *secret = v;
  if (adds) *adds = a;
  return "";
}

// Deterministic, well-mixed value stream for choosing share randomness (not under test).
struct Mixer {
  u64 s;
  explicit Mixer(u64 seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
  u64 next() { s += 0x9E3779B97F4A7C15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  u64 elem() { return next() % P; }
};

// ---- AES-128 encryption, straight from FIPS-197 (byte oriented, tables computed)
struct Aes128 {
  unsigned char sbox[256]; unsigned char rk[176];
  static unsigned char xt(unsigned char x) { return (unsigned char)((x << 1) ^ ((x >> 7) * 0x1b)); }
  static unsigned char gm(unsigned char a, unsigned char b) { unsigned char r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
  void make_sbox() {
    for (int i = 0; i < 256; i++) {
      unsigned char inv = 0;
      if (i) for (int j = 1; j < 256; j++) if (gm((unsigned char)i, (unsigned char)j) == 1) { inv = (unsigned char)j; break; }
      unsigned char r = 0;
      for (int b = 0; b < 8; b++) {
        int bit = (inv >> b ^ inv >> ((b + 4) & 7) ^ inv >> ((b + 5) & 7) ^ inv >> ((b + 6) & 7) ^ inv >> ((b + 7) & 7) ^ 0x63 >> b) & 1;
        r |= (unsigned char)(bit << b);
      }
      sbox[i] = r;
    }
  }
  explicit Aes128(const unsigned char* key) {
    static unsigned char cache[256]; static bool made = false;
    if (!made) { make_sbox(); memcpy(cache, sbox, 256); made = true; }
    memcpy(sbox, cache, 256);
    memcpy(rk, key, 16);
    unsigned char rcon = 1;
    for (int i = 16; i < 176; i += 4) {
      unsigned char t[4]; memcpy(t, rk + i - 4, 4);
      if (i % 16 == 0) { unsigned char u = t[0]; t[0] = sbox[t[1]] ^ rcon; t[1] = sbox[t[2]]; t[2] = sbox[t[3]]; t[3] = sbox[u]; rcon = xt(rcon); }
      for (int j = 0; j < 4; j++) rk[i + j] = rk[i - 16 + j] ^ t[j];
    }
  }
  void enc(const unsigned char* in, unsigned char* out) const {
    unsigned char s[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[i];
    for (int r = 1; r <= 10; r++) {
      unsigned char u[16];
      for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) u[4 * c + w] = sbox[s[4 * ((c + w) & 3) + w]];
      if (r < 10) for (int c = 0; c < 4; c++) {
        unsigned char* p = u + 4 * c; unsigned char a = p[0], b = p[1], d = p[2], e = p[3];
        p[0] = xt(a) ^ xt(b) ^ b ^ d ^ e; p[1] = a ^ xt(b) ^ xt(d) ^ d ^ e;
        p[2] = a ^ b ^ xt(d) ^ xt(e) ^ e; p[3] = xt(a) ^ a ^ b ^ d ^ xt(e);
      }
      for (int i = 0; i < 16; i++) s[i] = u[i] ^ rk[16 * r + i];
    }
    memcpy(out, s, 16);
  }
  static bool self_check() {   // FIPS-197 appendix B and C.1
    const unsigned char k[16] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15};
    const unsigned char p[16] = {0x00,0x11,0x22,0x33,0x44,0x55,0x66,0x77,0x88,0x99,0xaa,0xbb,0xcc,0xdd,0xee,0xff};
    const unsigned char c[16] = {0x69,0xc4,0xe0,0xd8,0x6a,0x7b,0x04,0x30,0xd8,0xcd,0xb7,0x80,0x70,0xb4,0xc5,0x5a};
    unsigned char o[16]; Aes128(k).enc(p, o);
    return !memcmp(o, c, 16);
  }
};

#ifndef MODEL_NONCE
#define MODEL_NONCE 0x0123456789ABCDEFULL
#endif
// The generator: AES-128 in counter mode over (64-bit little-endian counter, 64-bit nonce).
struct RefPrg {
  Aes128 aes; u64 ctr = 0;
  explicit RefPrg(const unsigned char* seed) : aes(seed) {}
  void block(u64 c, unsigned char* out) const {
    unsigned char in[16]; u64 nonce = MODEL_NONCE;
    for (int i = 0; i < 8; i++) { in[i] = (unsigned char)(c >> (8 * i)); in[8 + i] = (unsigned char)(nonce >> (8 * i)); }
    aes.enc(in, out);
  }
  void next(unsigned char* out, size_t n) {
    unsigned char b[16];
    for (size_t o = 0; o < n; o += 16) { block(ctr++, b); memcpy(out + o, b, std::min<size_t>(16, n - o)); }
  }
  u64 elem() { unsigned char b[8]; next(b, 8); u64 v; memcpy(&v, b, 8); return v % P; }
};

}  // namespace model
#endif
