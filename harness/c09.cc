// C09: sequences of correlated-randomness draws under consistent keys.
#include "parties.h"
#include <unordered_map>
using namespace par;

// seq[p][k]: what party p draws in step k: 0 = random, 1 = dummy random, 2 = dummy zero
// 3 = all keys are replaced, 4 + j = those of contributor j are replaced, 100 = the party goes on with a copy
// style[p]: in which order party p sets new keys
static void run(int n, int d, int mode, int salt, const std::vector<std::vector<int>>& seq, std::vector<int> style = {}) {
  style.resize((size_t)n, 0);
  const auto& pl = model::placement(n, d);
  int U = 2 * d + 1, ss = pl.share_size();
  std::vector<std::vector<frn::RandomShare>> drawn(n);
  for (int p = 0; p < n; p++) {
    auto c = correlator(p, n, d, mode, salt);
    int keys = salt;
    auto own = [&](int salt_now) { if (p < U) set_own(c, p, n, d, mode, salt_now); };
    auto rekey = [&](int lo, int hi) {
      keys += 10;
      if (style[p] == 0 && p >= lo && p < hi) own(keys);
      for (int k = 0; k < hi - lo; k++) {
        set_rand(c, p, n, d, mode, keys, style[p] == 2 ? hi - 1 - k : lo + k);
        if (style[p] == 2 && k == 0 && p >= lo && p < hi) own(keys);
      }
      if (style[p] == 1 && p >= lo && p < hi) own(keys);
    };
    for (int op : seq[p]) {
      if (op == 0) drawn[p].push_back(c.GenRandomShare());
      else if (op == 1) {
        auto r = c.GenRandomShareDummy();
        VCHECK(mem::val(r.add_share) == 0 && mem::vals(r.rep_share) == std::vector<u64>((size_t)ss, 0), "dummy random share is not zero");
        VCHECK((int)r.rep_add_shares.size() == U, "dummy random share has %zu parts", r.rep_add_shares.size());
        for (auto& x : r.rep_add_shares) VCHECK(mem::vals(x) == std::vector<u64>((size_t)ss, 0), "dummy random part is not zero");
      } else if (op == 3) rekey(0, U);
      else if (op == 100) { frn::Correlator copy(c); copy.GenRandomShare(); copy = c; c = copy; }
      else if (op > 3) rekey(op - 4, op - 3);
      else {
        auto r = c.GenZeroShareDummy();
        VCHECK(mem::val(r.add_share) == 0 && (int)r.rep_add_shares.size() == U, "dummy zero share");
        for (auto& x : r.rep_add_shares) VCHECK(mem::vals(x) == std::vector<u64>((size_t)ss, 0), "dummy zero part is not zero");
      }
      vh::transitions(); vh::progress();
    }
  }
  size_t draws = drawn[0].size(); for (auto& x : drawn) draws = std::min(draws, x.size());
  std::vector<u64> secrets; std::vector<std::vector<u64>> parts(U);
  std::vector<std::unordered_map<u64, size_t>> seen_add, seen_part((size_t)U); std::unordered_map<u64, size_t> seen;
  for (size_t k = 0; k < draws; k++) {
    std::vector<std::vector<u64>> r(n);
    for (int p = 0; p < n; p++) r[p] = mem::vals(drawn[p][k].rep_share);
    u64 secret = 0; std::vector<u64> adds;
    std::string e = model::consistent(r, n, d, &secret, &adds);
    if (!e.empty()) vh::fail("draw %zu: %s", k, e.c_str());
    u64 sum = 0;
    for (int j = 0; j < U; j++) {
      std::vector<std::vector<u64>> s(n);
      for (int p = 0; p < n; p++) { VCHECK((int)drawn[p][k].rep_add_shares.size() == U, "draw %zu: party %d holds %zu parts", k, p, drawn[p][k].rep_add_shares.size()); s[p] = mem::vals(drawn[p][k].rep_add_shares[(size_t)j]); }
      u64 part = 0; e = model::consistent(s, n, d, &part);
      if (!e.empty()) vh::fail("draw %zu, part of contributor %d: %s", k, j, e.c_str());
      if (part != mem::val(drawn[j][k].add_share)) vh::fail("draw %zu: contributor %d's additive share is %llu, its replicated part reconstructs to %llu", k, j, (unsigned long long)mem::val(drawn[j][k].add_share), (unsigned long long)part);
      sum = model::add(sum, part); parts[j].push_back(part);
    }
    if (sum != secret) vh::fail("draw %zu: parts do not sum to the random value", k);
    for (int p = U; p < n; p++) VCHECK(mem::val(drawn[p][k].add_share) == 0, "draw %zu: party %d beyond the contributors has a non-zero additive share", k, p);
    seen_add.resize(adds.size());
    for (size_t z = 0; z < adds.size(); z++) { auto i = seen_add[z].emplace(adds[z], k); if (!i.second) vh::fail("draws %zu and %zu share additive element %zu", i.first->second, k, z); }
    vh::progress();
    secrets.push_back(secret); vh::evals();
    vh::state(vh::mix(vh::mix(secret, (u64)(n * 100 + d)), k));
  }
  for (size_t a = 0; a < secrets.size(); a++) {
    auto i = seen.emplace(secrets[a], a); VCHECK(i.second, "draws %zu and %zu give the same value", i.first->second, a);
    for (int j = 0; j < U; j++) { auto q = seen_part[(size_t)j].emplace(parts[j][a], a); VCHECK(q.second, "contributor %d repeats its part in draws %zu and %zu", j, q.first->second, a); }
  }
  vh::traces(); vh::distinct_case();
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence();
  bool th = vh::thorough();
  for (int n = 3; n <= (th ? 14 : 13); n++) for (int d = 1; 2 * d < n; d++) {
    if (model::binom(n - 1, d) > (th ? 800u : 500u)) continue;
    for (int mode = 0; mode < kModes; mode++) for (int salt = 0; salt < 2; salt++) for (int draws : {1, 2, 3, 8}) {
      if (n > 9 && (salt || draws == 8)) continue;
      if (vh::begin("n=%d d=%d keys=%d salt=%d draws=%d", n, d, mode, salt, draws)) run(n, d, mode, salt, std::vector<std::vector<int>>((size_t)n, std::vector<int>((size_t)draws, 0)));
    }
  }
  for (int n : {4, 5, 7}) for (long draws : vh::sizes(7, 70000)) if ((draws <= (n < 7 ? 1100 : 260) || n == 4 || (th && draws < 10000)) && (n > 4 || draws < 5000 || draws > 69990 || draws % 8 == 1) && vh::begin("n=%d many draws=%ld", n, draws)) run(n, (n - 1) / 3, 1, 3, std::vector<std::vector<int>>((size_t)n, std::vector<int>((size_t)draws, 0)));
  // every interleaving of dummy and real draws up to length 4, one party differing from the others
  for (int n : {4, 5, 7}) for (int len = 1; len <= (th ? 6 : 4); len++) for (vh::Radix r(std::vector<int>((size_t)len, 3)); r.ok(); r.next()) for (int who = 0; who < 3; who++) {
    if (!vh::begin("n=%d draws=%s at party %d", n, r.str().c_str(), who)) continue;
    std::vector<std::vector<int>> seq((size_t)n, std::vector<int>((size_t)len, 0));
    seq[(size_t)who] = r.d;
    run(n, (n - 1) / 3, 1, 1, seq);
  }
  // keys replaced between draws: all, or those of one contributor; parties set them in different orders and one party
  // goes on with a copy after each step
  for (int n : {4, 5, 7}) for (int len = 2; len <= (th ? 6 : 5); len++) for (vh::Radix r(std::vector<int>((size_t)len, 4)); r.ok(); r.next()) for (int st = 0; st < (len < 4 ? 9 : 3); st++) for (int who = 0; who < (n == 4 ? 4 : 1); who++) {
    if (n == 7 && len > 3) continue;
    int last = r.d.back(); if (last != 0) continue;  // ends with a draw
    bool some = false; for (int x : r.d) some = some || x; if (!some) continue;
    int a = len < 4 ? st / 3 : st, b = len < 4 ? st % 3 : (st + 1) % 3;
    if (!vh::begin("n=%d draws and keys=%s styles=%d,%d other party=%d", n, r.str().c_str(), a, b, who)) continue;
    std::vector<std::vector<int>> seq((size_t)n);
    for (int p = 0; p < n; p++) for (int x : r.d) {
      seq[(size_t)p].push_back(x == 0 ? 0 : x == 1 ? 3 : 2 + x);  // 0 draw, 1 all keys, 2 contributor 0, 3 contributor 1
      if (p == who && st % 2) seq[(size_t)p].push_back(100);
    }
    std::vector<int> style((size_t)n, a); style[(size_t)who] = b;
    run(n, (n - 1) / 3, 1, 1, seq, style);
  }
  vh::finish();
}
