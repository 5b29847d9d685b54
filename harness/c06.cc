// C06: placement, sizes, queries, reconstruction, serialization and rejection of invalid
// parameters, at every (n,t) up to a bound.
#include "parties.h"
using namespace par;

static std::vector<int> members(unsigned m) { std::vector<int> r; for (int i = 0; i < 32; i++) if (m >> i & 1) r.push_back(i); return r; }

static void placement_case(int n, int t) {
  const auto& pl = model::placement(n, t);
  Rep& rep = replicator(n, t);
  VCHECK(rep.Size() == (size_t)n && rep.Threshold() == (size_t)t, "size or threshold query");
  VCHECK(rep.AdditiveShareSize() == model::binom(n, t) && (int)rep.AdditiveShareSize() == pl.add_size(), "additive share count %zu", rep.AdditiveShareSize());
  VCHECK(rep.ShareSize() == model::binom(n - 1, t) && (int)rep.ShareSize() == pl.share_size(), "share size %zu", rep.ShareSize());
  VCHECK(rep.ShareSizeBytes() == rep.ShareSize() * mem::W, "share size in bytes");
  for (int s = 0; s < pl.add_size(); s++) {
    auto want = members(pl.sets[s]);
    VCHECK(rep.Combination((size_t)s) == want, "subset %d differs", s);
    VCHECK(rep.RevComb(want) == s, "index of subset %d is %d", s, rep.RevComb(want));
    vh::evals(); vh::transitions(2);
  }
  for (int i = 0; i < n; i++) { VCHECK(rep.IndexSetFor((size_t)i) == pl.of[i], "index set of party %d", i); vh::evals(); vh::transitions(); }
  // number of elements one share has and another lacks: the same for every ordered pair
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) {
    size_t c = 0; for (int s : pl.of[i]) if (pl.pos(j, s) < 0) c++;
    if (c != rep.DifferenceSize()) vh::fail("difference size %zu, party %d holds %zu elements party %d lacks", rep.DifferenceSize(), i, c, j);
    if (n > 9 && j > 2) break;
  }
  vh::state(vh::mix((u64)n, (u64)t));
}
static void share_case(int n, int t, const std::vector<u64>& secrets, bool list, int draws) {
  const auto& pl = model::placement(n, t);
  Rep& rep = replicator(n, t);
  PRG g = mem::prg((u64)(n * 100 + t), vh::seed());
  for (int k = 0; k < draws; k++) {
    std::vector<Field> in; for (u64 s : secrets) in.push_back(mem::fld(s));
    std::vector<std::vector<Shr>> by_party(n);
    if (list) by_party = rep.Share(in, g);
    else for (auto& s : in) { auto sh = rep.Share(s, g); VCHECK((int)sh.size() == n, "%zu shares", sh.size()); for (int i = 0; i < n; i++) by_party[i].push_back(sh[i]); }
    VCHECK((int)by_party.size() == n, "%zu share lists", by_party.size());
    for (int i = 0; i < n; i++) VCHECK(by_party[i].size() == secrets.size(), "party %d has %zu shares of %zu secrets", i, by_party[i].size(), secrets.size());
    for (size_t x = 0; x < secrets.size(); x++) {
      auto col = column(by_party, x);
      mem::expect_sharing(col, n, t, secrets[x], "sharing");
      Field r = rep.Reconstruct(col);
      VCHECK(mem::val(r) == secrets[x], "reconstructs to %llu", (unsigned long long)mem::val(r));
      VCHECK(mem::val(rep.ErrorDetection(col)) == secrets[x], "detection-mode reconstruction");
      vh::state(hash_shares(col)); vh::evals(); vh::progress();
    }
    // bytes: exact canonical form, nothing written beyond, read back
    for (int i = 0; i < n; i++) {
      size_t sb = (size_t)pl.share_size() * mem::W, total = sb * secrets.size();
      std::vector<unsigned char> buf(total + 32, 0xA5);
      rep.SharesToBytes(by_party[i], buf.data() + 16);
      for (int z = 0; z < 16; z++) VCHECK(buf[z] == 0xA5 && buf[16 + total + z] == 0xA5, "serialization wrote outside the destination");
      for (size_t x = 0; x < secrets.size(); x++) for (int e = 0; e < pl.share_size(); e++) {
        u64 v; memcpy(&v, &buf[16 + x * sb + (size_t)e * mem::W], 8);
        VCHECK(v == mem::val(by_party[i][x][(size_t)e]), "serialized element");
      }
      auto back = rep.SharesFromBytes(buf.data() + 16, secrets.size());
      VCHECK(back.size() == secrets.size(), "deserialized count");
      for (size_t x = 0; x < secrets.size(); x++) VCHECK(mem::vals(back[x]) == mem::vals(by_party[i][x]), "deserialized share %zu of party %d", x, i);
      if (!secrets.empty()) {
        std::vector<unsigned char> b1(sb + 16, 0x5A);
        rep.ShareToBytes(by_party[i][0], b1.data());
        for (int z = 0; z < 16; z++) VCHECK(b1[sb + z] == 0x5A, "share serialization wrote too much");
        VCHECK(mem::vals(rep.ShareFromBytes(b1.data())) == mem::vals(by_party[i][0]), "single share round trip");
      }
      vh::transitions(2);
    }
  }
  vh::traces(); vh::distinct_case();
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence();
  bool th = vh::thorough();
  const auto& al = alphabet();
  int N = vh::is_set("small") && !vh::ctx().set.empty() ? 8 : (th ? 16 : 14);
  for (int n = N; n >= 2; n--) for (int t = 1; t < n; t++) {
    if (vh::begin("placement n=%d t=%d", n, t)) { placement_case(n, t); vh::traces(); vh::distinct_case(); }
    bool big = model::binom(n - 1, t) > 130;
    for (int a = 0; a < (big ? 1 : 6); a++) if (vh::begin("share n=%d t=%d secret=%d", n, t, a)) share_case(n, t, {al[(size_t)(a + (big ? 5 : 0))]}, false, big ? 1 : 2);
    for (int k = 0; k <= (big ? 2 : 4); k++) if (vh::begin("share list n=%d t=%d k=%d", n, t, k)) share_case(n, t, std::vector<u64>(al.begin() + 2, al.begin() + 2 + k), true, 1);
    if (n == 4 || n == 7) for (long k : vh::sizes(5, n == 4 ? (th ? 70000 : 20500) : 300)) if (n < 7 || t == 2) if (vh::begin("share list n=%d t=%d k=%ld", n, t, k)) { std::vector<u64> s; for (int j = 0; j < k; j++) s.push_back(model::Mixer((u64)j).elem()); share_case(n, t, s, true, 1); }
  }
  // the number of subsets itself, wherever the products of factors the definition multiplies fit the result type
  if (vh::is_set("small")) for (size_t k = 0; k <= 20; k++) if (vh::begin("C(m,%zu) for all m up to a bound", k)) {
    size_t hi = k <= 2 ? 70000 : k <= 4 ? 20000 : 3000; if (th) hi *= 10;
    for (size_t m = k; m <= hi; m++) {
      unsigned __int128 top = 1, bot = 1; bool fits = true; for (size_t i = 1; i <= std::min(k, m - k) && fits; i++) { top *= m + 1 - i; bot *= i; fits = top <= (unsigned __int128)~0ULL; }
      if (!fits) { if (2 * k > m) continue; break; }
      size_t want = (size_t)(top / bot);
      VCHECK(frn::lib::secret_sharing::Binom(m, k) == want && frn::lib::secret_sharing::Binom(m, m - k) == want, "C(%zu,%zu) is %zu or %zu, expected %zu", m, k, frn::lib::secret_sharing::Binom(m, k), frn::lib::secret_sharing::Binom(m, m - k), want);
      vh::evals(2); if (m % 1024 == 0) vh::progress();
    }
    vh::distinct_case();
  }
  if (vh::is_set("small")) {
    // extreme but small parameter pairs
    for (int n : {17, 20, 24, 28}) for (int t : {1, n - 1, 2, n - 2}) if (vh::begin("placement n=%d t=%d", n, t)) { placement_case(n, t); vh::traces(); vh::distinct_case(); }
    // invalid parameters: t = 0 or t >= n
    std::vector<size_t> ts;
    for (size_t n = 0; n <= 20; n++) {
      ts = {0};
      for (size_t x : {n, n + 1, n + 2, n + 5, (size_t)20, (size_t)63, (size_t)64, (size_t)65, (size_t)66, (size_t)67, (size_t)100, (size_t)255, (size_t)256, (size_t)1000, (size_t)4096}) ts.push_back(x);
      for (size_t t : ts) {
        if (t && t < n) continue;
        if (!vh::begin("invalid n=%zu t=%zu", n, t)) continue;
        bool thrown = false;
        try { Rep r(n, t); } catch (const std::exception&) { thrown = true; }
        VCHECK(thrown, "accepted");
        vh::evals(); vh::transitions(); vh::traces(); vh::distinct_case(); vh::state(vh::mix(n, t + 1000));
      }
    }
  }
  vh::finish();
}
