// C24: digests of every message length over several sponge blocks and every way (within bounds)
// of dividing it into update calls, against Keccak written from FIPS-202.
#include <sys/mman.h>

#include <string>

#include "frn/lib/primitives/hash.h"
#include "vh.h"
using namespace frn::lib::primitives;
typedef uint64_t u64; typedef std::vector<unsigned char> Bytes;

// ---- FIPS-202, lane coordinates, constants computed
static u64 rol(u64 x, int n) { n %= 64; return n ? (x << n) | (x >> (64 - n)) : x; }
static void keccak(u64 A[5][5]) {
  static u64 RC[24]; static int R[5][5]; static bool made = false;
  if (!made) {
    unsigned lf = 1;
    for (int r = 0; r < 24; r++) { RC[r] = 0; for (int j = 0; j <= 6; j++) { if (lf & 1) RC[r] ^= 1ULL << ((1 << j) - 1); lf = lf & 0x80 ? ((lf << 1) ^ 0x171) : lf << 1; } }
    int x = 1, y = 0; memset(R, 0, sizeof R);
    for (int t = 0; t < 24; t++) { R[x][y] = ((t + 1) * (t + 2) / 2) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; }
    made = true;
  }
  for (int r = 0; r < 24; r++) {
    u64 C[5], D[5], B[5][5];
    for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] ^= D[x];
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y][(2 * x + 3 * y) % 5] = rol(A[x][y], R[x][y]);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
    A[0][0] ^= RC[r];
  }
}
static Bytes sha3(const Bytes& m, int bits) {
  size_t rate = (1600 - 2 * (size_t)bits) / 8; Bytes p(m); p.push_back(0x06); while (p.size() % rate) p.push_back(0); p.back() |= 0x80;
  u64 A[5][5] = {{0}};
  for (size_t o = 0; o < p.size(); o += rate) { for (size_t i = 0; i < rate; i++) A[(i / 8) % 5][i / 8 / 5] ^= (u64)p[o + i] << (8 * (i % 8)); keccak(A); }
  Bytes d; for (int i = 0; i < bits / 8; i++) d.push_back((unsigned char)(A[(i / 8) % 5][i / 8 / 5] >> (8 * (i % 8))));
  return d;
}
static std::string hex(const Bytes& b) { std::string s; char t[4]; for (auto c : b) { snprintf(t, 4, "%02x", c); s += t; } return s; }
static void self_check() {
  struct { const char* m; int bits; const char* d; } kat[] = {
      {"", 256, "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a"},
      {"abc", 256, "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"},
      {"abc", 384, "ec01498288516fc926459f58e2c6ad8df9b473cb0fc08c2596da7cf0e49be4b298d88cea927ac7f539f1edf228376d25"},
      {"abc", 512, "b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0"},
      {"*71", 256, "254f2ac1df8eae4233c0c2fe74a03331b856518800936943cdbe57d7d224f224"},
      {"*71", 384, "3d3fc62c8617f0400959372bad3c9a7037180a41030fdb222155f4cac81358d8c981b15673461d000f9c714492c7c3bd"},
      {"*71", 512, "a02d5795bffd44cb0ac3cc3401ae89056b8017242eaf7e802033e974672ce7945811760c3b0d9578bc51bf90c364636ac87cda9b4f3e45620ea9c030421e9d86"},
      {"*72", 256, "f4bb95e698a2c13bd27f089f3762076daa40b629dc5d7ec53dbe163fca4a4bf3"},
      {"*72", 384, "9dbaa8e9380eb37b56147db9c374d4b67845756731aaafa31d6637715e32d7a5405d1b51cabe0df44b6a847476684999"},
      {"*72", 512, "2ec0da5ff440c192d33033c4257eb39dcbd27edd7e41b5ac8db9daf13db501a2ef938151aaddd82f600335654f77512cbcc926ec5abb05b79282ec716d685618"},
      {"*73", 256, "c610c3522f9423c2c706b1e26e532b121b67eb06c897d478ac6bb80ddbc8ae1f"},
      {"*73", 384, "f155926106b264866c4a8ef41786610fe04efae9878e26a7a058aeba1ffe4e7b16ee6c8c6f26d5d4b9a490cf1e285c8e"},
      {"*73", 512, "d26d1f9fc91b1d6c31405cc4a546f246fa7777f698d956c26a15170bccdd696aab3ee2e0597ee6f33bc7ac0336b1e4bfa0cc4355ab9faf8111cf27312640fd65"},
      {"*135", 256, "d9dcf1f98e49a79b0643a9e68fef48079ff8777c5e7e7f93469ded65f192ac71"},
      {"*135", 384, "4143a14ba7c5973d9e9bc20b7b53bde5cef330c8bfcd795bfc72fde07309175beaf2f390ed1d66312ce47633e4ceb234"},
      {"*135", 512, "9e9d81e346cf9a62dc4bda518e4096db553188368da1535eaa441982b98d399c0c8f0136f987886b94d1770387e07b276660317ccb66884cc7427550b7780cd4"},
      {"*136", 256, "743bd32e775ac7387a57d4d574c89ddef5ebcb08bb5cc6b88c55a27b5035cc45"},
      {"*136", 384, "b78775c23ceb19ee61274146b8e83a7768c7d4e4872417b146e569d1c4507668c148196fb799ae1d97d312f41e140e69"},
      {"*136", 512, "62c81b78426786e5a5d431082d98857c7e6b1988fd721478386233be5c19731cea3944dc24e192fb976e422d8bd31524c35026e615ab54c31a58ab772abfe6d7"},
      {"*137", 256, "01d47e8d6dce6e3dcbf1baa6f845b6ace4ef74bd17da8176ecc49bc35dbe5d21"},
      {"*137", 384, "623dff354350f43641bb491ad1f159a667bad50d33f65e1e2d7ca9397b84263b5e391e6e194668b39b395116c044cda3"},
      {"*137", 512, "3fd9dc45a7cdc291153d7b714ad68d824184c4166d2c980d41d5eaf9266e03892f965346361f62cb34404cfea6ea165dcdd8c34be99abdc9c500a1fedc315402"},
      {"*200", 256, "9da37ea2fb33acd563a014f50d6f7cc225f25577a81d900452b72b5de98f239d"},
      {"*200", 384, "5e208496a4bc98b60836a5c04d9ae89768423a5eb5881c543e9478210622ef4615b8b5fcd0b0dc2b7dc2a09883f987b4"},
      {"*200", 512, "14fb36d333d34fccb38c8801d7692c9350a324cbc44448b63aca9d3cfdb12fb52a08934fefda157796735871f1541d1e5bcb70cb03ca13186c94c5c45e1f1cad"},
      {"*300", 256, "064af3405aacb53d5d77ee858fec1e6e225480de3f14f06444e2b33d92d61879"},
      {"*300", 384, "168576bf888a5ed3a68a9f2cb70253280607d064d6e26066feb603af089dc78492cd94ce472e4af32db93016bc7ebf89"},
      {"*300", 512, "f85b76d4d2c98f6ec82f06651127d19643e2b1117420b700c42a8cdd55379152ca391df72e30886e70beb58cf28c05ae6bdb1197a91542e57fac331233246b93"}};
  for (auto& k : kat) { Bytes m; if (k.m[0] == '*') { int n = atoi(k.m + 1); for (int i = 0; i < n; i++) m.push_back((unsigned char)(i * 7 + 3)); } else m.assign(k.m, k.m + strlen(k.m)); if (hex(sha3(m, k.bits)) != k.d) vh::die("reference SHA-3 is wrong (%s, %d)", k.m, k.bits); }
}
static Bytes message(size_t len, int pat) {
  Bytes m(len);
  for (size_t i = 0; i < len; i++) m[i] = pat == 0 ? (unsigned char)(i * 7 + 3) : pat == 1 ? 0 : pat == 2 ? 0xff : pat == 3 ? (unsigned char)(0x80 >> (i % 8)) : (unsigned char)((i * i * 31 + i * 5 + len) >> 2);
  return m;
}
template <class Tag> Bytes digest(const Bytes& m, const std::vector<size_t>& cut, int form) {
  Hash<Tag> h; size_t o = 0;
  for (size_t c : cut) {
    if (form == 1) { Bytes part(m.begin() + (long)o, m.begin() + (long)(o + c)); part.shrink_to_fit(); auto& r = h.Update(part); if (&r != &h) vh::fail("Update returns another object"); }
    else if (form == 2) { Bytes tmp(c + 3); std::copy(m.begin() + (long)o, m.begin() + (long)(o + c), tmp.begin() + 3); h.Update(tmp.data() + 3, c); }   // unaligned source
    else { auto& r = h.Update(m.data() + o, c); if (&r != &h) vh::fail("Update returns another object"); }
    o += c;
  }
  if (o != m.size()) vh::die("cuts do not add up");
  auto d = h.Finalize(); vh::evals();
  return Bytes(d.begin(), d.end());
}
template <class Tag> void expect(const Bytes& m, const Bytes& want, const std::vector<size_t>& cut, int form) {
  Bytes got = digest<Tag>(m, cut, form);
  if (got != want) {
    std::string s; for (size_t c : cut) s += " " + std::to_string(c);
    vh::fail("digest of %zu bytes in updates of%s is %s, expected %s", m.size(), s.c_str(), hex(got).c_str(), hex(want).c_str());
  }
}
template <class Tag> void run(int bits) {
  const bool th = vh::thorough(); const size_t rate = (1600 - 2 * (size_t)bits) / 8;
  // every length; every division into two updates; uniform chunks of every size
  for (size_t len = 0; len <= (th ? 4 : 2) * rate + 20; len++) {
    if (!vh::begin("SHA3-%d, length %zu: all two-part divisions, all uniform chunkings", bits, len)) continue;
    for (int pat = 0; pat < 5; pat++) {
      Bytes m = message(len, pat), w = sha3(m, bits);
      for (int f = 0; f < 3; f++) expect<Tag>(m, w, {len}, f);
      if (pat && pat != 4 && !th) continue;
      for (size_t a = 0; a <= len; a++) { expect<Tag>(m, w, {a, len - a}, (int)(a % 3)); expect<Tag>(m, w, {a, 0, len - a, 0}, (int)(a % 3)); }
      for (size_t c = 1; c <= len && c <= 80; c++) { std::vector<size_t> cut; size_t o = 0; while (o < len) { size_t x = std::min(c, len - o); cut.push_back(x); o += x; } expect<Tag>(m, w, cut, (int)(c % 3)); }
    }
    vh::distinct_case(); vh::state(vh::hash_bytes(&len, 8, (u64)bits));
  }
  // every division of short messages (compositions)
  for (size_t len = 1; len <= (th ? 18 : 14); len++) {
    if (!vh::begin("SHA3-%d, length %zu: every division into updates", bits, len)) continue;
    Bytes m = message(len, 0), w = sha3(m, bits);
    for (unsigned mask = 0; mask < 1u << (len - 1); mask++) {
      std::vector<size_t> cut; size_t c = 1; for (size_t i = 0; i + 1 < len; i++) { if (mask >> i & 1) { cut.push_back(c); c = 1; } else c++; } cut.push_back(c);
      expect<Tag>(m, w, cut, 0);
      if ((mask & 0xfff) == 0) vh::progress();
    }
    vh::distinct_case();
  }
  // every division into three updates around the block boundary (prefix fixed to reach it)
  for (size_t a = 0; a <= 9; a++) for (size_t b0 = rate - 18; b0 <= rate + 9; b0++) {
    if (!vh::begin("SHA3-%d: updates of %zu, %zu and 0..24 bytes", bits, a, b0)) continue;
    for (size_t c = 0; c <= 24; c++) for (size_t d = 0; d < 3; d++) { Bytes m = message(a + b0 + c + d, 4); expect<Tag>(m, sha3(m, bits), {a, b0, c, d}, (int)(d % 3)); }
    vh::distinct_case();
  }
  // all ordered triples of small chunk sizes, in every alignment
  for (size_t a = 0; a <= 17; a++) {
    if (!vh::begin("SHA3-%d: all updates of %zu, 0..17, 0..17 bytes", bits, a)) continue;
    for (size_t b = 0; b <= 17; b++) for (size_t c = 0; c <= 17; c++) { Bytes m = message(a + b + c, 0); expect<Tag>(m, sha3(m, bits), {a, b, c}, 0); }
    vh::distinct_case();
  }
  // single bit messages: every byte position of two blocks matters, and its value exactly
  for (size_t len : {(size_t)8, rate - 1, rate, 2 * rate - 3}) {
    if (!vh::begin("SHA3-%d, length %zu: every single-bit message", bits, len)) continue;
    for (size_t i = 0; i < len; i++) for (int b = 0; b < 8; b += (len > 8 && !th ? 3 : 1)) { Bytes m(len, 0); m[i] = (unsigned char)(1 << b); expect<Tag>(m, sha3(m, bits), {len}, 0); vh::progress(); }
    vh::distinct_case();
  }
  // a copy continues independently
  for (size_t a = 0; a <= 2 * rate; a += 5) {
    if (!vh::begin("SHA3-%d: copy after %zu bytes", bits, a)) continue;
    for (size_t b : {(size_t)0, (size_t)1, (size_t)9, rate}) {
      Bytes m = message(a, 4), x = message(b, 0), y = message(b + 2, 2); Hash<Tag> h; h.Update(m); Hash<Tag> g(h); h.Update(x); g.Update(y);
      auto dh = h.Finalize(), dg = g.Finalize(); Bytes mx(m), my(m); mx.insert(mx.end(), x.begin(), x.end()); my.insert(my.end(), y.begin(), y.end());
      VCHECK(Bytes(dh.begin(), dh.end()) == sha3(mx, bits) && Bytes(dg.begin(), dg.end()) == sha3(my, bits), "copies of a hash in progress interfere"); vh::evals(2);
    }
    vh::distinct_case();
  }
  // lengths at which block, word and byte counters of a round size would end, in one update and in a few
  for (size_t len : {(size_t)65536 * 8 - 8, (size_t)65536 * 8, (size_t)65536 * 8 + 9, (size_t)65536 * 16 + 21, rate * 65536 - 1, rate * 65536 + 5, (size_t)(th ? 0x8000000 : 0x1000000) + 13}) {
    if (!vh::begin("SHA3-%d, length %zu, also in two updates", bits, len)) continue;
    Bytes m = message(len, 4); vh::progress(); Bytes w = sha3(m, bits); vh::progress(); expect<Tag>(m, w, {len}, 0); vh::progress(); expect<Tag>(m, w, {3, len - 3}, 0); vh::distinct_case();
  }
  for (long l : vh::sizes(300, th ? 300000 : 140000)) {
    size_t len = (size_t)l; if (!vh::begin("SHA3-%d, length %zu in large updates", bits, len)) continue;
    Bytes m = message(len, 4), w = sha3(m, bits); expect<Tag>(m, w, {len}, 0); expect<Tag>(m, w, {1, len / 2, len - len / 2 - 1}, 0); expect<Tag>(m, w, {len - 1, 1}, 1); vh::distinct_case();
  }
  for (size_t len : {(size_t)65536, (size_t)100003}) {
    if (!vh::begin("SHA3-%d, length %zu", bits, len)) continue;
    Bytes m = message(len, 4), w = sha3(m, bits); expect<Tag>(m, w, {len}, 0); expect<Tag>(m, w, {1, len / 2, len - len / 2 - 1}, 0); vh::distinct_case();
  }
}
// more than 2^32 bytes in one update (all zero: a mapping that takes no memory); digests from Python's hashlib
template <class Tag> void huge(int bits, const char* want) {
#ifndef __SANITIZE_ADDRESS__
  const size_t len = (1ULL << 32) + 13;
  if (!vh::thorough() || !vh::begin("SHA3-%d, length %zu", bits, len)) return;
  void* m = mmap(nullptr, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) vh::die("mmap");
  { Hash<Tag> h; h.Update((const unsigned char*)m, len); vh::progress(); auto d = h.Finalize(); if (hex(Bytes(d.begin(), d.end())) != want) vh::fail("digest of %zu zero bytes in one update is %s, expected %s", len, hex(Bytes(d.begin(), d.end())).c_str(), want); vh::evals(); }
  munmap(m, len); vh::distinct_case();
#else
  (void)bits; (void)want;
#endif
}
int main(int argc, char** argv) {
  vh::init(argc, argv); self_check();
  huge<SHA3_256>(256, "d00a23bbfb25348281c60dcd7411967b909851dbd26af9336d27a8979e61a7e5");
  huge<SHA3_384>(384, "c7ce36cadfe27d353a2edf116b0501a2dbd45ccb9c320fa2d98f8b7b2c334411cd2328857bc806cef383777143848355");
  huge<SHA3_512>(512, "cbe5e917840fb78ead0036f86e7beb229b3d54f5e44caac024cd050d72626b1255e4410c5daebf6e62b739f4260112cc85267a423e247947e034dd4fe07d4d3f");
  run<SHA3_256>(256); run<SHA3_384>(384); run<SHA3_512>(512);
  vh::finish();
}
