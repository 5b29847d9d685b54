// C23: every history of requests, copies, assignments and resets on two generator objects up to
// a depth, every single request size up to a bound, all one-bit seeds, against AES-128-CTR
// written from FIPS-197.
#include <memory>
#include <set>

#include "frn/lib/primitives/prg.h"
#include "model.h"
#include "vh.h"
using frn::lib::primitives::PRG;
typedef uint64_t u64;
#ifndef INIT_CTR
#define INIT_CTR 0ULL
#endif
typedef std::vector<unsigned char> Bytes;

static Bytes seed_of(int k) {
  Bytes s(16, 0);
  if (k == 0) return s;
  if (k <= 128) { s[(k - 1) / 8] = (unsigned char)(1 << ((k - 1) % 8)); return s; }
  if (k == 129) { for (int i = 0; i < 16; i++) s[i] = (unsigned char)i; return s; }
  if (k == 130) { memset(s.data(), 0xff, 16); return s; }
  model::Mixer m((u64)k + vh::seed() * 1000); for (auto& c : s) c = (unsigned char)m.next();
  return s;
}
// expected bytes of the stream of a seed, from its block number c on
struct Stream {
  model::RefPrg ref; Bytes cache;   // blocks INIT_CTR, INIT_CTR+1, ...
  explicit Stream(const Bytes& seed) : ref(seed.data()) {}
  const unsigned char* at(u64 block, size_t n) {
    size_t need = (size_t)block * 16 + ((n + 15) / 16) * 16;
    while (cache.size() < need) { unsigned char b[16]; ref.block(INIT_CTR + cache.size() / 16, b); cache.insert(cache.end(), b, b + 16); }
    return cache.data() + block * 16;
  }
};
struct Obj { std::unique_ptr<PRG> p; u64 blk; };
static std::string hist;
// one request of m bytes in a destination surrounded by guard bytes at an offset
static void request(PRG& p, u64& blk, Stream& st, size_t m, size_t off, int form) {
  u64 before = (u64)p.Counter();
  VCHECK(before == INIT_CTR + blk, "%s: counter is %llu, expected %llu", hist.c_str(), (unsigned long long)before, (unsigned long long)(INIT_CTR + blk));
  const unsigned char* want = st.at(blk, m);
  if (form == 0) {
    Bytes buf(m + 64 + off, 0x77); unsigned char* d = buf.data() + 32 + off;
    p.Next(d, m);
    for (size_t i = 0; i < buf.size(); i++) {
      unsigned char* a = buf.data() + i;
      if (a < d || a >= d + m) VCHECK(*a == 0x77, "%s: wrote outside the %zu requested bytes (offset %ld)", hist.c_str(), m, (long)(a - d));
    }
    VCHECK(!m || !memcmp(d, want, m), "%s: request of %zu bytes differs from AES-CTR blocks %llu..", hist.c_str(), m, (unsigned long long)blk);
  } else if (form == 1) {      // exactly sized heap vector, whole
    Bytes v(m); v.shrink_to_fit(); p.Next(v);
    VCHECK(v.size() == m && (!m || !memcmp(v.data(), want, m)), "%s: vector request of %zu bytes", hist.c_str(), m);
  } else if (form == 2) {      // part of a longer vector
    Bytes v(m + 19, 0x66); p.Next(v, m);
    VCHECK(v.size() == m + 19 && (!m || !memcmp(v.data(), want, m)), "%s: partial vector request of %zu bytes", hist.c_str(), m);
    for (size_t i = m; i < v.size(); i++) VCHECK(v[i] == 0x66, "%s: wrote past the %zu requested bytes", hist.c_str(), m);
  } else if (form == 3) {      // exactly sized, with explicit length
    Bytes v(m); p.Next(v, m);
    VCHECK(v.size() == m && (!m || !memcmp(v.data(), want, m)), "%s: exact vector request of %zu bytes", hist.c_str(), m);
  } else {                     // too small a destination: refused, nothing happens
    for (size_t have : {m / 2, m - 1}) {
      if (!m) continue;
      Bytes v(have, 0x55); bool threw = false;
      try { p.Next(v, m); } catch (const std::exception&) { threw = true; }
      VCHECK(threw, "%s: request of %zu bytes into %zu was not refused", hist.c_str(), m, have);
      VCHECK(v.size() == have, "%s: refused request resized the destination", hist.c_str());
      for (auto c : v) VCHECK(c == 0x55, "%s: refused request wrote to the destination", hist.c_str());
      VCHECK((u64)p.Counter() == before, "%s: refused request advanced the counter", hist.c_str());
    }
    vh::evals(); return;
  }
  blk += (m + 15) / 16;
  VCHECK((u64)p.Counter() == INIT_CTR + blk, "%s: counter after %zu bytes is %llu, expected %llu", hist.c_str(), m, (unsigned long long)p.Counter(), (unsigned long long)(INIT_CTR + blk));
  vh::evals();
}
static std::vector<size_t> sizes;
static void dfs(const PRG& p, u64 pb, const PRG& q, u64 qb, Stream& st, const Bytes& seed, int depth, int first) {
  vh::state(vh::mix(vh::mix(vh::hash_bytes(seed.data(), 16), pb), qb + 77));
  if (!depth) { vh::traces(); return; }
  vh::progress();
  std::string save = hist; int nops = (int)sizes.size() * 2 + 6;
  for (int o = 0; o < nops; o++) {
    if (first >= 0 && o != first) continue;
    PRG a(p), b(q); u64 ab = pb, bb = qb; int s = (int)sizes.size();
    if (o < 2 * s) { bool onq = o >= s; size_t m = sizes[(size_t)(o % s)]; hist += std::string(onq ? " q.Next(" : " p.Next(") + std::to_string(m) + ")"; request(onq ? b : a, onq ? bb : ab, st, m, (size_t)(o & 1), (o + depth) % 4); }
    else switch (o - 2 * s) {
      case 0: hist += " p.Reset"; a.Reset(); ab = 0; break;
      case 1: hist += " q.Reset"; b.Reset(); bb = 0; break;
      case 2: hist += " q=p"; b = a; bb = ab; break;
      case 3: hist += " p=q"; a = b; ab = bb; break;
      case 4: hist += " p.refused"; request(a, ab, st, 17, 0, 4); break;
      case 5: { hist += " q=PRG(p)"; PRG c(a); b = c; bb = ab; c.Next(Bytes(32).data(), 20); break; }
    }
    VCHECK(!memcmp(a.Seed(), seed.data(), 16) && !memcmp(b.Seed(), seed.data(), 16), "%s: seed changed", hist.c_str());
    VCHECK((u64)a.Counter() == INIT_CTR + ab && (u64)b.Counter() == INIT_CTR + bb, "%s: counters", hist.c_str());
    vh::transitions();
    dfs(a, ab, b, bb, st, seed, depth - 1, -1);
    hist = save;
  }
  if (depth == 1) return;
}
int main(int argc, char** argv) {
  vh::init(argc, argv); bool th = vh::thorough();
  if (!model::Aes128::self_check()) vh::die("reference AES is wrong");
  // every seed, from construction
  for (int k = 0; k < 160; k++) {
    if (!vh::begin("seed %d: first requests", k)) continue;
    Bytes s = seed_of(k); Stream st(s);
    Bytes exact(s); exact.shrink_to_fit();
    PRG p(exact.data()); std::fill(exact.begin(), exact.end(), 0xEE);   // the seed is copied
    hist = "fresh"; u64 b = 0;
    VCHECK(!memcmp(p.Seed(), s.data(), 16), "seed is not the one given");
    for (size_t m : {16, 1, 33, 8, 8, 0, 100}) { request(p, b, st, m, 0, 0); hist += " Next(" + std::to_string(m) + ")"; }
    p.Reset(); b = 0; hist += " Reset"; request(p, b, st, 48, 0, 0);
    if (!k) { PRG z; hist = "default"; b = 0; request(z, b, st, 64, 0, 0); VCHECK(!memcmp(z.Seed(), s.data(), 16), "default seed is not zero"); }
    vh::distinct_case();
  }
  VCHECK(PRG::BlockSize() == 16 && PRG::SeedSize() == 16, "sizes");
  // every single request size, at destination offsets, from two positions
  for (size_t m = 0; m <= (th ? 4200 : 700); m++) {
    if (!vh::begin("request of %zu bytes", m)) continue;
    Bytes s = seed_of(140 + (int)(m % 7)); Stream st(s);
    for (int form = 0; form < 5; form++) for (size_t off = 0; off < (form ? 1 : 16); off++) for (int pre = 0; pre < 3; pre++) {
      PRG p(s.data()); u64 b = 0; hist = "pre" + std::to_string(pre);
      if (pre == 1) request(p, b, st, 1, 0, 0);
      if (pre == 2) request(p, b, st, 40, 0, 0);
      request(p, b, st, m, off, form); hist += " Next(m)"; request(p, b, st, 24, 0, 0);
    }
    vh::distinct_case();
  }
  for (size_t m : [&] { std::vector<size_t> v; for (long x : vh::sizes(700, th ? 600000 : 140000)) v.push_back((size_t)x); for (size_t x : {(size_t)16 * 65536 - 1, (size_t)16 * 65536, (size_t)16 * 65536 + 1, (size_t)16 * 65536 + 17, (size_t)16 * 65536 + 5000}) v.push_back(x); return v; }()) {
    if (!vh::begin("request of %zu bytes", m)) continue;
    Bytes s = seed_of(150); Stream st(s); PRG p(s.data()); u64 b = 0; hist = "large";
    request(p, b, st, m, 0, 0); request(p, b, st, 16, 0, 0); vh::distinct_case();
  }
  // block counters beyond 2^8 and 2^16 in small steps
  for (size_t m : {1, 16}) {
    if (!vh::begin("70000 requests of %zu bytes", m)) continue;
    Bytes s = seed_of(151); Stream st(s); PRG p(s.data()); hist = "steps"; unsigned char d[16];
    for (u64 b = 0; b < 70000; b++) { p.Next(d, m); if (memcmp(d, st.at(b, m), m)) vh::fail("block %llu differs", (unsigned long long)b); vh::evals(); if (b % 1000 == 0) vh::progress(); }
    vh::distinct_case();
  }
  // all histories
  sizes = th ? std::vector<size_t>{0, 1, 15, 16, 17, 33} : std::vector<size_t>{0, 8, 16, 17, 40};
  int nops = (int)sizes.size() * 2 + 6;
  for (int k : {129, 141}) for (int f = 0; f < nops; f++) {
    if (!vh::begin("histories of depth %d, seed %d, first operation %d", th ? 5 : 4, k, f)) continue;
    Bytes s = seed_of(k); Stream st(s); hist = ""; PRG p(s.data()), q(p);
    dfs(p, 0, q, 0, st, s, th ? 5 : 4, f); vh::distinct_case();
  }
  vh::finish();
}
