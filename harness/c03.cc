// C03: batches of secure multiplications: party counts x thresholds x batch sizes x operands x
// correlated-randomness keys x successive batches.
#include "parties.h"
using namespace par;

// pat: which shares the products of a batch use: 0 all different, 1 every product the same two shares, 2 always one share
// with itself, 3 every product its own share squared, 4 two pairs in turn, 5 one fixed first factor, 6 each product's first
// factor the previous one's second, 7 the same two shares in either order
// ahead: 0 each protocol instance is made when its turn comes, 1 all are made before the first runs, 2 all are made and prepared before the first runs
struct Hist { int n, d; std::vector<int> batches; int mode; int op0; bool vector_api; bool same_correlator; std::vector<std::vector<std::vector<int>>> calls = {}; int pat = 0; int ahead = 0; };   // calls[p][b]: party p's division of batch b into calls (0: one product, k: a list of k, -1: an empty list)
static std::pair<u64, u64> operands(const Hist& h, int k) {
  const auto& a = alphabet(); int m = (int)a.size();
  int i = h.op0 + k;
  if (i < m * m) return {a[(size_t)(i / m)], a[(size_t)(i % m)]};
  model::Mixer r((u64)i); u64 x = r.elem(); return {x, r.elem()};
}
static std::pair<int, int> factors(const Hist& h, int k) {   // as indices into the list of shared values
  switch (h.pat) {
    case 1: return {0, 1}; case 2: return {0, 0}; case 3: return {2 * k, 2 * k}; case 4: return {2 * (k % 2), 2 * (k % 2) + 1};
    case 5: return {0, 2 * k + 1}; case 6: return {k, k + 1}; case 7: return {k % 2, 1 - k % 2}; default: return {2 * k, 2 * k + 1};
  }
}
static void run(const Hist& h) {
  int total = 0; for (int b : h.batches) total += b;
  model::Mixer rnd(vh::seed() * 1000 + (u64)h.op0 + (u64)total);
  std::vector<std::vector<Shr>> val(2 * (size_t)total + 2);
  std::vector<u64> plain(val.size());
  for (size_t k = 0; k < val.size(); k++) { auto o = operands(h, (int)k / 2); plain[k] = k % 2 ? o.second : o.first; val[k] = mem::share(plain[k], h.n, h.d, rnd); }
  auto X = [&](int k, int id) -> const Shr& { return val[(size_t)factors(h, k).first][(size_t)id]; };
  auto Y = [&](int k, int id) -> const Shr& { return val[(size_t)factors(h, k).second][(size_t)id]; };
  mem::World w(h.n); w.keep_log = false;
  for (int i = 0; i < h.n; i++) w.order[i] = h.n - 1 - i;
  std::vector<std::vector<Shr>> out(h.n);
  std::vector<std::vector<size_t>> sizes(h.n);
  auto& man = manipulators(h.n, h.d);
  std::string e = w.run([&](int id) {
    auto net = mem::net(id, h.n, h.d, w);
    frn::CheckData cd((unsigned)h.d);
    auto shared = correlator(id, h.n, h.d, h.mode, 0);
    std::vector<std::unique_ptr<frn::Mult>> made;
    auto make = [&](size_t s) { made.push_back(std::make_unique<frn::Mult>(net, replicator(h.n, h.d), man[id], h.same_correlator ? shared : correlator(id, h.n, h.d, h.mode, (int)s), cd)); };
    int k = 0;
    auto prepare = [&](size_t s) {
      frn::Mult& mult = *made[s]; int b = h.batches[s];
      if (!h.calls.empty()) {
        int j = 0; for (int c : h.calls[(size_t)id][s]) {
          if (!c) { mult.Prepare(X(k + j, id), Y(k + j, id)); j++; continue; }
          if (c < 0) c = 0;
          std::vector<Shr> a, e; for (int i = 0; i < c; i++) { a.push_back(X(k + j, id)); e.push_back(Y(k + j, id)); j++; } mult.Prepare(a, e);
        }
      } else if (h.vector_api) {
        std::vector<Shr> a, c; for (int j = 0; j < b; j++) { a.push_back(X(k + j, id)); c.push_back(Y(k + j, id)); }
        if (h.pat == 2) mult.Prepare(a, a); else mult.Prepare(a, c);
      } else for (int j = 0; j < b; j++) mult.Prepare(X(k + j, id), Y(k + j, id));
      k += b;
    };
    auto finish = [&](size_t s) { auto r = made[s]->Run(); sizes[id].push_back(r.size()); for (auto& x : r) out[id].push_back(x); };
    size_t nb = h.batches.size();
    if (h.ahead) for (size_t s = 0; s < nb; s++) make(s);
    if (h.ahead == 2) for (size_t s = 0; s < nb; s++) prepare(s);
    for (size_t s = 0; s < nb; s++) { if (!h.ahead) make(s); if (h.ahead != 2) prepare(s); finish(s); }
  });
  if (!e.empty()) vh::fail("%s", e.c_str());
  for (int id = 0; id < h.n; id++) for (size_t b = 0; b < h.batches.size(); b++)
    VCHECK(sizes[id][b] == (size_t)h.batches[b], "party %d got %zu results for batch %zu of %d products", id, sizes[id][b], b, h.batches[b]);
  uint64_t st = 3;
  for (int k = 0; k < total; k++) {
    std::pair<u64, u64> o{plain[(size_t)factors(h, k).first], plain[(size_t)factors(h, k).second]};
    char what[100]; snprintf(what, sizeof what, "product %d (%llu * %llu)", k, (unsigned long long)o.first, (unsigned long long)o.second);
    auto col = column(out, k);
    mem::expect_sharing(col, h.n, h.d, model::mul(o.first, o.second), what);
    st = vh::mix(st, hash_shares(col)); vh::state(st); vh::evals(); vh::progress();
  }
  vh::transitions(w.ops); vh::traces(); vh::distinct(st);
}
// all ways to divide c products into calls
static void divide(int c, std::vector<int> pre, std::vector<std::vector<int>>& out) {
  if (!c) { out.push_back(pre); return; }
  pre.push_back(0); divide(c - 1, pre, out); pre.pop_back();
  for (int k = 1; k <= c; k++) { pre.push_back(k); divide(c - k, pre, out); pre.pop_back(); }
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence();
  bool th = vh::thorough();
  auto one = [&](Hist h) {
    std::string b; for (int x : h.batches) b += (b.empty() ? "" : ",") + std::to_string(x);
    if (!vh::begin("n=%d d=%d batches=%s keys=%d op0=%d vec=%d samecorr=%d pattern=%d ahead=%d", h.n, h.d, b.c_str(), h.mode, h.op0, h.vector_api, h.same_correlator, h.pat, h.ahead)) return;
    run(h);
  };
  if (vh::is_set("large")) {        // expensive cases first
    if (th) { one({16, 5, {1}, 1, 3, false, false}); one({15, 4, {1}, 1, 3, false, false}); one({14, 4, {3}, 1, 20, false, false}); }
    for (int n = 13; n >= 11; n--) one({n, (n - 1) / 3, {1, 2}, 1, 20, false, false});
    for (int n = 10; n >= 8; n--) for (int d = 1; 2 * d < n; d++) if (model::binom(n - 1, d) <= 126) one({n, d, {1, 2}, 1, 9, false, false});
    for (int n : {4, 5, 7}) for (int b : {8, 63, 64, 65, 128, 255, 256, 257, 300, 1000}) for (int mode = 0; mode < 2; mode++) one({n, (n - 1) / 3, {b}, mode, 0, mode == 1, false});
    for (int b : {65535, 65536, 65537, 66000}) one({4, 1, {b, 1}, 1, 0, true, false});
    for (long b : vh::sizes(7, th ? 140000 : 20500)) { Hist h{4, 1, {(int)b, 2}, 1, 0, b % 3 != 0, false}; h.pat = (int)(b % 5 == 0 ? b / 5 % 8 : 0); one(h); }
    for (long b : vh::sizes(7, th ? 5000 : 1100)) for (int n : {5, 7}) one({n, (n - 1) / 3, {(int)b}, 1, 0, b % 2 == 0, false});
    for (int n : {4, 7, 8, 10}) for (int pat = 1; pat < 8; pat++) { Hist h{n, (n - 1) / 3, {n < 8 ? 300 : 3, 2}, 1, 40, pat % 2 == 0, false}; h.pat = pat; one(h); }
  }
  if (vh::is_set("small")) for (int n : {4, 5}) for (int c = 1; c <= (th ? 6 : n == 4 ? 5 : 4); c++) {
    std::vector<std::vector<int>> all; divide(c, {}, all);
    { auto some = all; for (auto& a : some) { auto b = a; b.insert(b.begin() + (long)(b.size() / 2), -1); all.push_back(b); } }
    for (size_t a = 0; a < all.size(); a++) for (int shift = 0; shift < 3; shift++) for (int mode = 0; mode < 2; mode++) {
      std::string t; for (int x : all[a]) t += (t.empty() ? "" : ",") + std::to_string(x);
      if (!vh::begin("n=%d batch of %d in the calls %s, the next in another division, shift %d, keys %d", n, c, t.c_str(), shift, mode)) continue;
      Hist h{n, 1, {c, c}, mode, (int)a, false, false}; h.calls.resize((size_t)n); for (int p = 0; p < n; p++) h.calls[(size_t)p] = {all[(a + (size_t)(p * shift)) % all.size()], all[(a * 3 + 1 + (size_t)(p * shift)) % all.size()]};
      run(h);
    }
  }
  if (vh::is_set("small")) {
    for (int n = 4; n <= 7; n++) for (int d = 1; 2 * d < n; d++) {
      for (int mode = 0; mode < kModes; mode++)
        for (int va = 0; va < 2; va++) {
          // every sequence of up to 3 batches with sizes 0..3
          for (vh::Radix r({4, 4, 4}); r.ok(); r.next()) {
            if (n > 5 && (r[0] + r[1] + r[2] > 4)) continue;
            one({n, d, r.d, mode, r[0] * 16 + r[1] * 4 + r[2], va == 1, false});
          }
          for (int b = 0; b <= 6; b++) one({n, d, {b}, mode, 9, va == 1, true});
          one({n, d, {2, 2}, mode, 11, va == 1, true});
        }
      // the same shares in several products, protocol instances made (and prepared) ahead of their turn
      for (int pat = 0; pat < 8; pat++) for (int ahead = 0; ahead < 3; ahead++) for (int va = 0; va < 2; va++) for (int mode = 0; mode < 2; mode++)
        for (vh::Radix r({4, 4, 3}); r.ok(); r.next()) {
          if (r[0] + r[1] + r[2] < 1 || (n > 5 && r[0] + r[1] + r[2] > 4) || (!pat && !ahead)) continue;
          Hist h{n, d, r.d, mode, r[0] * 16 + r[1] * 4 + pat, va == 1, false}; h.pat = pat; h.ahead = ahead; one(h);
        }
      // every pair of operands on its own
      int m = (int)alphabet().size();
      for (int k = 0; k < m * m; k++) one({n, d, {1}, 1, k, false, false});
      one({n, d, {m * m}, 1, 0, false, false});
    }
  }
  vh::finish();
}
