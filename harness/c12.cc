// C12: openings of the compressed products: who sends what to whom, and what it enables.
#include "parties.h"
#include <algorithm>
using namespace par;

static void run(int n, int d, const std::vector<int>& batches, int mode, int start) {
  int total = 0; for (int b : batches) total += b;
  int U = 2 * d + 1;
  model::Mixer rnd(vh::seed() * 131 + (u64)total * 7 + (u64)n);
  std::vector<u64> xv, yv; std::vector<std::vector<Shr>> xs, ys;
  for (int k = 0; k < total; k++) { u64 x = rnd.elem(), y = rnd.elem(); xv.push_back(x); yv.push_back(y); xs.push_back(mem::share(x, n, d, rnd)); ys.push_back(mem::share(y, n, d, rnd)); }
  mem::World w(n);
  for (int i = 0; i < n; i++) w.order[i] = (i + start) % n;
  auto& man = manipulators(n, d);
  std::vector<std::vector<std::vector<u64>>> msgs(n);    // party -> contributor -> compressed double share
  std::vector<std::vector<std::vector<std::vector<u64>>>> rec(n);   // party -> product -> contributor -> double share
  std::vector<std::vector<u64>> coef(n);
  std::vector<char> checking(n, 0);
  std::vector<std::vector<std::vector<u64>>> sent(n, std::vector<std::vector<u64>>(n));
  std::string e = w.run([&](int id) {
    auto net = mem::net(id, n, d, w);
    frn::CheckData cd((unsigned)d);
    int k = 0, s = 0;
    for (int b : batches) {
      frn::Mult mult(net, replicator(n, d), man[id], correlator(id, n, d, mode, s++), cd);
      for (int j = 0; j < b; j++) mult.Prepare(xs[k + j][id], ys[k + j][id]);
      k += b; mult.Run();
    }
    for (auto& m : cd.msgs) { rec[id].emplace_back(); for (auto& x : m) rec[id].back().push_back(mem::vals(x)); }
    frn::Check check(net, replicator(n, d), man[id], cd);
    check.ComputeRandomCoefficients();
    check.PrepareLinearCombinations();
    check.PrepareMsgs();
    for (auto& x : check.VerifCompressed().msgs) msgs[id].push_back(mem::vals(x));
    coef[id] = mem::vals(check.VerifCoefficients());
    w.log.push_back({id, -1, mem::kBytes, {}});        // everything this party sends from here on is an opening
    check.ReconstructMsgs();
  });
  if (!e.empty()) vh::fail("%s", e.c_str());
  std::string l = w.leftover();
  if (!l.empty()) vh::fail("after the openings %s", l.c_str());
  for (auto& m : w.log) {
    if (m.to < 0) { checking[m.from] = 1; continue; }
    if (!checking[m.from] || m.kind == mem::kBytes) continue;
    auto& v = sent[m.from][m.to]; v.insert(v.end(), m.v.begin(), m.v.end());
  }
  const auto& p2 = model::placement(n, 2 * d); const auto& pl = model::placement(n, d);
  // the true compressed contributions, recomputed from the operands
  std::vector<std::vector<u64>> truth(U, std::vector<u64>(p2.add_size(), 0));
  for (int k = 0; k < total; k++) {
    for (int a = 0; a < pl.add_size(); a++) for (int b = 0; b < pl.add_size(); b++) {
      unsigned first = model::first_k(pl.sets[a] & pl.sets[b], n - 2 * d);
      int h = model::lowest(pl.sets[a] & pl.sets[b]);
      u64 xa = mem::val(xs[k][h][(size_t)pl.pos(h, a)]), yb = mem::val(ys[k][h][(size_t)pl.pos(h, b)]);
      auto& t = truth[model::lowest(first)][p2.index.at(first)];
      t = model::add(t, model::mul(coef[0][k], model::mul(xa, yb)));
    }
  }
  u64 grand = 0, want = 0;
  for (int k = 0; k < total; k++) want = model::add(want, model::mul(coef[0][k], model::mul(xv[k], yv[k])));
  for (auto& c : truth) for (u64 v : c) grand = model::add(grand, v);
  if (grand != want) vh::die("model error: contributions do not sum to the combination");
  uint64_t st = 11;
  for (int id = 0; id < n; id++) {
    VCHECK((int)msgs[id].size() == U, "party %d compressed %zu contributors", id, msgs[id].size());
    for (int c = 0; c < U; c++) for (int k = 0; k < p2.share_size(); k++)
      if (msgs[id][c][k] != truth[c][p2.of[id][k]]) vh::fail("party %d's compressed element %d of contributor %d is %llu, expected %llu", id, k, c, (unsigned long long)msgs[id][c][k], (unsigned long long)truth[c][p2.of[id][k]]);
  }
  for (int s = 0; s < n; s++) for (int r = 0; r < n; r++) {
    std::vector<u64> values; size_t digests = 0;
    for (int x = 0; x < p2.add_size(); x++) {
      unsigned set = p2.sets[x];
      if (!(set >> s & 1) || set >> r & 1) continue;
      if (model::lowest(set) == s) for (int c = 0; c < U; c++) values.push_back(truth[c][x]);
      else digests++;
    }
    auto got = sent[s][r];
    if (got.size() != values.size() + digests) vh::fail("P%d sends P%d %zu elements, expected %zu values and %zu digests", s, r, got.size(), values.size(), digests);
    // the values are all there (the rest are digests)
    std::sort(got.begin(), got.end()); std::sort(values.begin(), values.end());
    if (!std::includes(got.begin(), got.end(), values.begin(), values.end())) vh::fail("P%d does not send P%d exactly the missing elements it is responsible for", s, r);
    st = vh::mix(st, vh::hash_bytes(got.data(), got.size() * 8)); vh::state(st); vh::evals();
  }
  // reconstruction at every party from its own elements and the received values
  for (int r = 0; r < n; r++) {
    u64 sum = 0; std::vector<char> have(p2.add_size(), 0);
    for (int k = 0; k < p2.share_size(); k++) { have[p2.of[r][k]] = 1; for (int c = 0; c < U; c++) sum = model::add(sum, msgs[r][c][k]); }
    for (int s = 0; s < n; s++) for (u64 v : sent[s][r]) sum = model::add(sum, v);   // digests are neutral only if zero
    (void)have;
    for (int s = 0; s < n; s++) { // remove digests: elements beyond the expected values
      std::vector<u64> values;
      for (int x = 0; x < p2.add_size(); x++) if (!(p2.sets[x] >> r & 1) && model::lowest(p2.sets[x]) == s) for (int c = 0; c < U; c++) values.push_back(truth[c][x]);
      auto rest = sent[s][r]; for (u64 v : values) { auto it = std::find(rest.begin(), rest.end(), v); if (it != rest.end()) rest.erase(it); }
      for (u64 v : rest) sum = model::sub(sum, v);
    }
    if (sum != want) vh::fail("party %d reconstructs %llu, expected %llu", r, (unsigned long long)sum, (unsigned long long)want);
  }
  vh::transitions(w.ops); vh::traces(); vh::distinct_case();
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence();
  bool th = vh::thorough();
  auto one = [&](int n, int d, std::vector<int> b, int mode, int start) {
    std::string s; for (int x : b) s += (s.empty() ? "" : ",") + std::to_string(x);
    if (vh::begin("n=%d d=%d batches=%s keys=%d start=%d", n, d, s.c_str(), mode, start)) run(n, d, b, mode, start);
  };
  for (int n = th ? 13 : 11; n >= 8; n--) for (int d = 1; 3 * d < n; d++) { if (model::binom(n - 1, d) > (th ? 500 : 130)) continue; one(n, d, {2}, 1, 0); one(n, d, {}, 1, n - 1); if (n < 10) for (int s = 0; s < n; s++) one(n, d, {1, 1}, 1, s); }
  for (int n = 4; n <= 7; n++) for (int d = 1; 3 * d < n; d++) {
    for (int s = 0; s < n; s++) for (vh::Radix r({3, 3}); r.ok(); r.next()) for (int mode = 0; mode < 2; mode++) one(n, d, r.d, mode, s);
    for (int b : {3, 4, 8, 33}) one(n, d, {b}, 1, 0);
  }
  for (long b : vh::sizes(7, th ? 66000 : 4200)) one(4, 1, {(int)b, (int)(b % 3)}, 1, (int)(b % 4));
  for (int b : {5000, 8193, 16385, 66000}) one(4, 1, {b, 3}, 1, 0);
  for (int b : {256, 257, 1000}) { one(4, 1, {b}, 1, 0); one(4, 1, {5, b}, 1, 0); }
  // thresholds with n > 3d + 1 are covered above; 2d < n <= 3d has no honest majority per element and is out of scope
  vh::finish();
}
