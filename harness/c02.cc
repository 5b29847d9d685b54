// C02: exhaustive histories of input preparations x party counts x seeds.
#include "parties.h"
using namespace par;

// One history: counts[i] values supplied by party i; order[p] = the sequence of supplier ids in
// which party p makes its preparations (each supplier i appears counts[i] times).
struct History {
  int n, d; std::vector<int> counts; int seed_mode; int sessions; bool vector_api; std::vector<std::vector<int>> order;
  // calls[p][i]: how party p divides its preparations for supplier i into calls: 0 = one single value, k = a list of k values, -1 = an empty list
  std::vector<std::vector<std::vector<int>>> calls = {};
};
static u64 secret(int i, int j, int seed) {
  const auto& a = alphabet();
  if (j < 8) return a[(size_t)(i * 3 + j + seed) % a.size()];
  return model::Mixer((u64)i * 1000 + (u64)j + (u64)seed * 77).elem();
}
static void run(const History& h) {
  mem::World w(h.n); w.keep_log = false;
  for (int i = 0; i < h.n; i++) w.order[i] = (i + h.seed_mode) % h.n;   // schedule is irrelevant to a Kahn network; vary it anyway
  std::vector<std::vector<std::vector<std::vector<Shr>>>> out(h.sessions, std::vector<std::vector<std::vector<Shr>>>(h.n));
  auto& man = manipulators(h.n, h.d);
  std::string e = w.run([&](int id) {
    auto net = mem::net(id, h.n, h.d, w);
    for (int s = 0; s < h.sessions; s++) {
      u64 sd = h.seed_mode == 0 ? 0 : h.seed_mode == 1 ? (u64)(id + 1) : (u64)(id * 7919 + h.seed_mode + 100 * s);
      PRG prg = h.seed_mode == 0 ? PRG() : mem::prg(sd, vh::seed());
      frn::InputSetup setup(net, replicator(h.n, h.d), prg);
      frn::Input input(net, man[id], setup.Run());
      if (!h.calls.empty()) {
        // the pieces of all suppliers taken in turn
        std::vector<size_t> at((size_t)h.n); std::vector<int> done((size_t)h.n);
        for (bool more = true; more;) { more = false; for (int i = 0; i < h.n; i++) {
          auto& c = h.calls[(size_t)id][(size_t)i]; if (at[(size_t)i] >= c.size()) continue;
          int k = c[at[(size_t)i]++]; more = true; int& j = done[(size_t)i];
          if (k == 0) { if (i == id) input.Prepare(mem::fld(secret(i, j, h.seed_mode + s))); else input.PrepareToReceive((unsigned)i); j++; }
          else { if (k < 0) k = 0; std::vector<Field> v; for (int x = 0; x < k; x++) v.push_back(mem::fld(secret(i, j + x, h.seed_mode + s))); if (i == id) input.Prepare(v); else input.PrepareToReceive((unsigned)i, (size_t)k); j += k; }
        } }
      } else if (h.vector_api) {
        for (int i = 0; i < h.n; i++) {
          if (i == id) { std::vector<Field> v; for (int j = 0; j < h.counts[i]; j++) v.push_back(mem::fld(secret(i, j, h.seed_mode + s))); input.Prepare(v); }
          else input.PrepareToReceive((unsigned)i, (size_t)h.counts[i]);
        }
      } else {
        std::vector<int> done(h.n, 0);
        for (int i : h.order[id]) {
          if (i == id) input.Prepare(mem::fld(secret(i, done[i], h.seed_mode + s)));
          else input.PrepareToReceive((unsigned)i);
          done[i]++;
        }
      }
      out[s][id] = input.Run();
    }
  });
  if (!e.empty()) vh::fail("%s", e.c_str());
  uint64_t st = 1;
  for (int s = 0; s < h.sessions; s++)
    for (int id = 0; id < h.n; id++) {
      VCHECK((int)out[s][id].size() == h.n, "party %d: %zu suppliers in the output", id, out[s][id].size());
      for (int i = 0; i < h.n; i++) VCHECK((int)out[s][id][i].size() == h.counts[i], "party %d holds %zu shares of P%d's values, expected %d", id, out[s][id][i].size(), i, h.counts[i]);
    }
  for (int s = 0; s < h.sessions; s++)
    for (int i = 0; i < h.n; i++)
      for (int j = 0; j < h.counts[i]; j++) {
        std::vector<Shr> col; for (int id = 0; id < h.n; id++) col.push_back(out[s][id][i][j]);
        char what[80]; snprintf(what, sizeof what, "session %d, value %d of P%d", s, j, i);
        mem::expect_sharing(col, h.n, h.d, secret(i, j, h.seed_mode + s), what);
        st = vh::mix(st, hash_shares(col)); vh::state(st);
        vh::evals(); vh::progress();
      }
  vh::transitions(w.ops); vh::traces();
  vh::distinct(st);
}
static std::vector<int> ascending(const std::vector<int>& c) { std::vector<int> r; for (size_t i = 0; i < c.size(); i++) for (int j = 0; j < c[i]; j++) r.push_back((int)i); return r; }
static std::vector<int> round_robin(const std::vector<int>& c) {
  std::vector<int> r; int mx = 0; for (int x : c) mx = std::max(mx, x);
  for (int j = 0; j < mx; j++) for (size_t i = c.size(); i-- > 0;) if (j < c[i]) r.push_back((int)i);
  return r;
}
static std::string str(const std::vector<int>& v) { std::string s; for (int x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return s; }

// all ways to divide c preparations into calls
static void divide(int c, std::vector<int> pre, std::vector<std::vector<int>>& out) {
  if (!c) { out.push_back(pre); return; }
  pre.push_back(0); divide(c - 1, pre, out); pre.pop_back();
  for (int k = 1; k <= c; k++) { pre.push_back(k); divide(c - k, pre, out); pre.pop_back(); }
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence();
  bool th = vh::thorough();
  auto one = [&](int n, int d, std::vector<int> c, int seed_mode, int sessions, int style, std::vector<std::vector<int>> order = {}) {
    if (!vh::begin("n=%d d=%d counts=%s seeds=%d sessions=%d style=%d%s%s", n, d, str(c).c_str(), seed_mode, sessions, style, order.empty() ? "" : " order0=", order.empty() ? "" : str(order[0]).c_str())) return;
    if (order.empty())
      for (int p = 0; p < n; p++) {
        auto o = style == 2 ? round_robin(c) : ascending(c);
        if (style == 3) std::reverse(o.begin(), o.end());
        if (style == 4 && !o.empty()) {           // per-party rotation over suppliers
          std::vector<int> r; for (int k = 0; k < n; k++) for (int j = 0; j < c[(k + p) % n]; j++) r.push_back((k + p) % n);
          o = r;
        }
        order.push_back(o);
      }
    run({n, d, c, seed_mode, sessions, style == 1, order});
  };
  if (vh::is_set("small")) {
    // all count vectors in 0..2 for n=4, all styles and seed modes
    for (vh::Radix r(std::vector<int>(4, 3)); r.ok(); r.next())
      for (int style = 0; style < 5; style++) for (int sm = 0; sm < 3; sm++) one(4, 1, r.d, sm, sm == 2 ? 2 : 1, style);
    for (vh::Radix r(std::vector<int>(4, th ? 5 : 4)); r.ok(); r.next()) one(4, 1, r.d, 3, 1, 2);
    for (vh::Radix r(std::vector<int>(5, 3)); r.ok(); r.next()) for (int style = 0; style < 5; style += 2) one(5, 1, r.d, 2, 1, style);
    for (int n = 6; n <= 8; n++)
      for (vh::Radix r(std::vector<int>(n, 2)); r.ok(); r.next()) one(n, (n - 1) / 3, r.d, 2, 1, (int)(r[0] + 2 * r[1]));
    // every admissible threshold
    for (int n = 5; n <= 8; n++) for (int d = 1; 2 * d < n; d++)
      for (int who = 0; who < n; who++) { std::vector<int> c(n, 0); c[who] = 2; c[(who + 1) % n] = 1; one(n, d, c, 2, 1, who % 5); }
    // all preparation orders of party 0 (others ascending / reversed) for small multisets
    for (vh::Radix r(std::vector<int>(4, 3)); r.ok(); r.next()) {
      auto o = ascending(r.d);
      if (o.size() < 2 || o.size() > (th ? 6u : 5u)) continue;
      auto rev = o; std::reverse(rev.begin(), rev.end());
      auto p = o;
      do { one(4, 1, r.d, 2, 1, 0, {p, o, rev, o}); } while (std::next_permutation(p.begin(), p.end()));
    }
  }
  // every division of a supplier's values into single and list calls, against every division by the receivers
  if (vh::is_set("small")) for (int n : {4, 5}) for (int c = 1; c <= (th ? 5 : n == 4 ? 4 : 3); c++) {
    std::vector<std::vector<int>> all; divide(c, {}, all);
    { auto some = all; for (auto& a : some) { auto b = a; b.insert(b.begin() + (long)(b.size() / 2), -1); all.push_back(b); } }
    for (size_t a = 0; a < all.size(); a++) for (size_t b = 0; b < all.size(); b++) for (int who = 0; who < n; who += n - 1) {
      if (c == 5 && (a + b) % 3) continue;
      if (!vh::begin("n=%d party %d supplies %d values in the calls %s, received in the calls %s", n, who, c, str(all[a]).c_str(), str(all[b]).c_str())) continue;
      std::vector<int> counts((size_t)n, 0); counts[(size_t)who] = c; int o = (who + 1) % n; counts[(size_t)o] = 3;
      std::vector<std::vector<std::vector<int>>> calls((size_t)n, std::vector<std::vector<int>>((size_t)n));
      for (int p = 0; p < n; p++) { calls[(size_t)p][(size_t)who] = p == who ? all[a] : all[(b + (size_t)p) % all.size()]; calls[(size_t)p][(size_t)o] = p == o ? std::vector<int>{0, 2} : std::vector<int>{2, 0}; }
      run({n, 1, counts, 2, 1, false, {}, calls});
    }
  }
  if (vh::is_set("large")) {
    for (int n = 4; n <= (th ? 13 : 11); n++) for (int style = 0; style < 5; style++) {
      int d = (n - 1) / 3;
      std::vector<int> c(n);
      for (int i = 0; i < n; i++) c[i] = (i * 3 + style) % 4;
      one(n, d, c, style, 1, style);
      for (int i = 0; i < n; i++) c[i] = 1;
      one(n, d, c, 2, 2, style);
      std::fill(c.begin(), c.end(), 0); c[n - 1] = 3; one(n, d, c, 2, 1, style);
      std::fill(c.begin(), c.end(), 0); c[0] = 3; one(n, d, c, 2, 1, style);
    }
    for (int n : {4, 5, 7}) for (int k : {8, 17, 64, 65, 255, 256, 257, 300, 1000}) for (int who : {0, 1, n - 1}) {
      std::vector<int> c(n, 0); c[who] = k; c[(who + 1) % n] = 2; one(n, (n - 1) / 3, c, 2, 1, who == 1 ? 1 : 0);
    }
    // sizes around which blocks, chunks and counters end; every supplier's role once
    for (long k : vh::sizes(8, th ? 140000 : 20500)) one(4, 1, k % 4 == 0 ? std::vector<int>{(int)k, 0, 0, 0} : k % 4 == 1 ? std::vector<int>{0, (int)k, 0, 1} : k % 4 == 2 ? std::vector<int>{1, 0, (int)k, 0} : std::vector<int>{0, 2, 0, (int)k}, 2, 1, (int)(k / 4 % 2));
    for (int k : {65535, 65536, 65537, 70001}) one(4, 1, {0, k, 0, 1}, 2, 1, 1);
    for (long k : vh::sizes(8, th ? 5000 : 1100)) for (int n : {5, 7}) { std::vector<int> c((size_t)n, 0); c[(size_t)(k % n)] = (int)k; one(n, (n - 1) / 3, c, 2, 1, 0); }
    for (int k : {1025, 4097, 8193}) { std::vector<int> c{k, k + 1, k - 1, k}; one(4, 1, c, 2, 1, 1); one(4, 1, c, 2, 2, 2); }
    for (int n : {12, 13}) { std::vector<int> c(n, 0); c[0] = 1; c[n - 1] = 2; c[n / 2] = 1; one(n, (n - 1) / 3, c, 2, 1, 0); }
  }
  vh::finish();
}
