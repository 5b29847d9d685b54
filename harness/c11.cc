// C11: the verification record and its compression, for every sequence of multiplication batches.
#include "parties.h"
using namespace par;

// ahead: 0 each protocol instance is made when its turn comes, 1 all are made before the first runs, 2 all are also prepared before
// pat: 0 all products of different shares, 1 all of the same two shares, 2 all squares of one share
static void run(int n, int d, const std::vector<int>& batches, int mode, bool vec, int ahead, int pat) {
  int total = 0; for (int b : batches) total += b;
  int U = 2 * d + 1, T = n - d;
  model::Mixer rnd(vh::seed() * 31 + (u64)total * 7 + (u64)n);
  const auto& al = alphabet();
  std::vector<u64> xv, yv; std::vector<std::vector<Shr>> xs, ys;
  for (int k = 0; k < total; k++) {
    u64 x = k < 64 ? al[(size_t)(k * 3 + 5) % al.size()] : rnd.elem(), y = k < 64 ? al[(size_t)(k * 5 + 3) % al.size()] : rnd.elem();
    if (k % 3 == 2) { x = rnd.elem(); y = rnd.elem(); }
    if (k && pat) { xv.push_back(xv[0]); yv.push_back(yv[0]); xs.push_back(xs[0]); ys.push_back(ys[0]); continue; }
    if (pat == 2) y = x;
    xv.push_back(x); yv.push_back(y); xs.push_back(mem::share(x, n, d, rnd)); ys.push_back(pat == 2 ? xs.back() : mem::share(y, n, d, rnd));
  }
  mem::World w(n);
  auto& man = manipulators(n, d);
  std::vector<std::unique_ptr<frn::CheckData>> cd(n);
  std::vector<std::vector<u64>> coef(n), comp_recv(n);
  std::vector<u64> comp_sent(n), comp_back(n);
  std::string e = w.run([&](int id) {
    auto net = mem::net(id, n, d, w);
    cd[id] = std::make_unique<frn::CheckData>((unsigned)d);
    std::vector<std::unique_ptr<frn::Mult>> made; int k = 0;
    auto make = [&](size_t s) { made.push_back(std::make_unique<frn::Mult>(net, replicator(n, d), man[id], correlator(id, n, d, mode, (int)s), *cd[id])); };
    auto prepare = [&](size_t s) {
      int b = batches[s];
      if (vec) { std::vector<Shr> a, c; for (int j = 0; j < b; j++) { a.push_back(xs[k + j][id]); c.push_back(ys[k + j][id]); } made[s]->Prepare(a, c); }
      else for (int j = 0; j < b; j++) made[s]->Prepare(xs[k + j][id], ys[k + j][id]);
      k += b;
    };
    size_t nb = batches.size();
    if (ahead) for (size_t s = 0; s < nb; s++) make(s);
    if (ahead == 2) for (size_t s = 0; s < nb; s++) prepare(s);
    for (size_t s = 0; s < nb; s++) { if (!ahead) make(s); if (ahead != 2) prepare(s); made[s]->Run(); }
    frn::Check check(net, replicator(n, d), man[id], *cd[id]);
    check.ComputeRandomCoefficients();
    check.PrepareLinearCombinations();
    coef[id] = mem::vals(check.VerifCoefficients());
    auto& c = check.VerifCompressed();
    comp_sent[id] = mem::val(c.shares_sent_to_p1); comp_back[id] = mem::val(c.values_recv_from_p1); comp_recv[id] = mem::vals(c.shares_recv_by_p1);
  });
  if (!e.empty()) vh::fail("%s", e.c_str());
  // what really went over the wire, per party
  std::vector<std::vector<u64>> sent(n), back(n);
  for (auto& m : w.log) if (m.kind == mem::kBytes) {       // the same elements in another wrapping
    std::vector<u64> v; for (size_t i = 0; i + mem::W <= m.v.size(); i += mem::W) { u64 x = 0; for (size_t b = 0; b < mem::W; b++) x |= m.v[i + b] << (8 * b); v.push_back(x); }
    m.v = v;
  }
  for (auto& m : w.log) {
    // a message from the first party to itself carries its shares first, then the reconstructions, per batch
    if (m.to == 0 && m.from != 0) sent[m.from].insert(sent[m.from].end(), m.v.begin(), m.v.end());
    if (m.from == 0 && m.to != 0) back[m.to].insert(back[m.to].end(), m.v.begin(), m.v.end());
  }
  std::vector<std::vector<u64>> self;
  for (auto& m : w.log) if (m.from == 0 && m.to == 0) self.push_back(m.v);
  { // per batch: one list of shares, then one list of openings
    std::vector<u64> flat; for (auto& v : self) flat.insert(flat.end(), v.begin(), v.end());
    VCHECK((int)flat.size() == 2 * total, "the first party sent itself %zu elements for %d products", flat.size(), total);
    size_t pos = 0; for (int b : batches) { sent[0].insert(sent[0].end(), flat.begin() + (long)pos, flat.begin() + (long)pos + b); pos += (size_t)b; back[0].insert(back[0].end(), flat.begin() + (long)pos, flat.begin() + (long)pos + b); pos += (size_t)b; }
  }
  const auto& p2 = model::placement(n, 2 * d); const auto& pl = model::placement(n, d);
  uint64_t st = 5;
  for (int id = 0; id < n; id++) {
    VCHECK(cd[id]->counter == (size_t)total, "party %d counts %zu multiplications of %d", id, cd[id]->counter, total);
    if (id < U) VCHECK(mem::vals(cd[id]->shares_sent_to_p1) == sent[id], "party %d's record of what it sent differs from what it sent", id);
    VCHECK((int)sent[id].size() == (id < U ? total : 0), "party %d sent %zu elements to the first party", id, sent[id].size());
    if (id < T) VCHECK(mem::vals(cd[id]->values_recv_from_p1) == back[id], "party %d's record of what it received back differs", id);
    VCHECK((int)cd[id]->msgs.size() == total, "party %d holds message shares for %zu of %d products", id, cd[id]->msgs.size(), total);
    for (int k = 0; k < total; k++) VCHECK((int)cd[id]->msgs[k].size() == U, "party %d, product %d: shares of %zu contributors", id, k, cd[id]->msgs[k].size());
  }
  VCHECK((int)cd[0]->shares_recv_by_p1.size() == U, "first party's record has %zu senders", cd[0]->shares_recv_by_p1.size());
  for (int j = 0; j < U; j++) VCHECK(mem::vals(cd[0]->shares_recv_by_p1[j]) == sent[j], "first party's record of what P%d sent differs", j);
  for (int k = 0; k < total; k++) {
    u64 all = 0;
    for (int j = 0; j < U; j++) {
      // contributor j's product, by the definition of the local additive product
      u64 want = 0;
      auto xa = mem::vals(xs[k][j]), ya = mem::vals(ys[k][j]);
      for (int a = 0; a < pl.share_size(); a++) for (int b = 0; b < pl.share_size(); b++) {
        unsigned first = model::first_k(pl.sets[pl.of[j][a]] & pl.sets[pl.of[j][b]], n - 2 * d);
        if (model::lowest(first) == j) want = model::add(want, model::mul(xa[a], ya[b]));
      }
      std::vector<Shr> col; for (int id = 0; id < n; id++) col.push_back(cd[id]->msgs[k][j]);
      char what[80]; snprintf(what, sizeof what, "recorded shares of P%d's product %d", j, k);
      mem::expect_sharing(col, n, 2 * d, want, what);
      all = model::add(all, want);
      st = vh::mix(st, hash_shares(col)); vh::state(st); vh::evals();
    }
    VCHECK(all == model::mul(xv[k], yv[k]), "contributors' products do not sum to product %d", k);
    vh::progress();
  }
  // compressed record
  for (int id = 0; id < n; id++) { VCHECK((int)coef[id].size() == total, "party %d derived %zu coefficients for %d products", id, coef[id].size(), total); VCHECK(coef[id] == coef[0], "party %d derived different coefficients", id); }
  for (int a = 0; a < total; a++) for (int b = std::max(0, a - 50); b < a; b++) VCHECK(coef[0][a] != coef[0][b], "coefficients %d and %d coincide", a, b);
  auto lin = [&](const std::vector<u64>& v) { u64 r = 0; for (int k = 0; k < total; k++) r = model::add(r, model::mul(coef[0][k], v[k])); return r; };
  for (int id = 1; id < U; id++) {
    if (comp_sent[id] != lin(sent[id])) vh::fail("party %d's compressed record of what it sent is %llu, expected %llu", id, (unsigned long long)comp_sent[id], (unsigned long long)lin(sent[id]));
    if (comp_back[id] != lin(back[id])) vh::fail("party %d's compressed record of what it received is %llu, expected %llu", id, (unsigned long long)comp_back[id], (unsigned long long)lin(back[id]));
  }
  VCHECK((int)comp_recv[0].size() == U, "compressed record of the first party has %zu senders", comp_recv[0].size());
  for (int j = 0; j < U; j++) VCHECK(comp_recv[0][j] == lin(sent[j]), "first party's compressed record of P%d differs", j);
  (void)p2;
  vh::transitions(w.ops); vh::traces(); vh::distinct_case();
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence();
  bool th = vh::thorough();
  auto one = [&](int n, int d, std::vector<int> b, int mode, bool vec, int ahead = 0, int pat = 0) {
    std::string s; for (int x : b) s += (s.empty() ? "" : ",") + std::to_string(x);
    if (vh::begin("n=%d d=%d batches=%s keys=%d vec=%d ahead=%d pattern=%d", n, d, s.c_str(), mode, vec, ahead, pat)) run(n, d, b, mode, vec, ahead, pat);
  };
  for (int n = 12; n >= 8; n--) for (int d = 1; 3 * d < n; d++) { if (model::binom(n - 1, d) > (th ? 400 : 170)) continue; one(n, d, {1, 2}, 1, false); one(n, d, {0}, 1, false); one(n, d, {3}, 0, false); }
  for (int n = 4; n <= 7; n++) for (int d = 1; 3 * d < n; d++) {
    for (int mode = 0; mode < kModes; mode++) for (vh::Radix r({4, 4, 4}); r.ok(); r.next()) { if (n > 5 && r[0] + r[1] + r[2] > 5) continue; one(n, d, r.d, mode, (r[0] + r[1]) % 2); }
    for (int b : {0, 1, 2, 3, 5, 8, 64, 65}) one(n, d, {b}, 1, true);
    for (vh::Radix r(std::vector<int>(th ? 6 : 5, 2)); r.ok(); r.next()) one(n, d, r.d, 1, false);
  }
  for (int n : {4, 5, 7}) for (int ahead = 0; ahead < 3; ahead++) for (int pat = 0; pat < 3; pat++) for (vh::Radix r({4, 4, 3}); r.ok(); r.next()) { if (n > 5 && r[0] + r[1] + r[2] > 4) continue; one(n, (n - 1) / 3, r.d, 1, (r[0] + r[2]) % 2, ahead, pat); }
  for (long b : vh::sizes(7, th ? 66000 : 5200)) { one(4, 1, {(int)b}, 1, true); if (b < 700 && b % 3 == 0) one(5, 1, {2, (int)b}, 1, false, 1 + (int)(b % 2), (int)(b % 3)); }
  for (int b : {8193, 12289, 16385, 66000}) one(4, 1, {b}, 1, true);
  for (int b : {255, 256, 257, 300, 1000}) { one(4, 1, {b}, 1, true); one(4, 1, {3, b, 2}, 1, false); if (b < 400) one(7, 2, {b}, 1, true); }
  vh::finish();
}
