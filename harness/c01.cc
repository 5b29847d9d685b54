// C01: every small arithmetic circuit over inputs of several parties, evaluated jointly and plainly.
#include "parties.h"
using namespace par;

// gate kinds: 0 add, 1 sub, 2 mult (binary: a,b); 3 a+c, 4 c+a, 5 a-c, 6 c-a, 7 a*c (unary with constant c)
struct Gate { int k, a, b; u64 c; };
static std::string str(const std::vector<Gate>& g) {
  std::string s; char t[80];
  for (auto& x : g) {
    const char* f[] = {"w%d+w%d", "w%d-w%d", "w%d*w%d"};
    if (x.k < 3) snprintf(t, sizeof t, f[x.k], x.a, x.b);
    else { const char* u[] = {"w%d+", "+w%d:", "w%d-", "-w%d:", "w%d."}; snprintf(t, sizeof t, u[x.k - 3], x.a); s += t; snprintf(t, sizeof t, "%llu", (unsigned long long)x.c); }
    s += t; s += "; ";
  }
  return s;
}
// Suppliers: owner[i] supplies input wire i. batch: multiplications whose operands are ready are
// evaluated in one batch (true) or one at a time (false). ahead: all protocol instances are made before the first is run.
static void run(int n, int d, const std::vector<int>& owner, const std::vector<u64>& in, const std::vector<Gate>& g, int batch, int check, int mode, bool ahead = false) {
  int ni = (int)owner.size(), total = ni + (int)g.size();
  std::vector<u64> plain(in);
  for (auto& x : g) {
    using namespace model; u64 a = plain[x.a], b = x.k < 3 ? plain[x.b] : 0, v = 0;
    switch (x.k) { case 0: v = add(a, b); break; case 1: v = sub(a, b); break; case 2: v = mul(a, b); break; case 3: case 4: v = add(a, x.c); break; case 5: v = sub(a, x.c); break; case 6: v = sub(x.c, a); break; default: v = mul(a, x.c); }
    plain.push_back(v);
  }
  mem::World w(n); w.keep_log = false;
  for (int i = 0; i < n; i++) w.order[i] = (i * 3 + (int)g.size()) % n;
  { std::vector<int> seen(n, 0); for (int x : w.order) seen[x]++; for (int x : seen) if (x != 1) { for (int i = 0; i < n; i++) w.order[i] = i; break; } }
  std::vector<std::vector<Shr>> wires(n, std::vector<Shr>(total));
  auto& man0 = manipulators(n, d);
  std::string e = w.run([&](int id) {
    auto net = mem::net(id, n, d, w);
    auto man = man0[id];
    auto& W = wires[id];
    frn::CheckData cd((unsigned)d);
    int salt = 0, used = 0;
    std::vector<std::unique_ptr<frn::Mult>> mults;
    auto make = [&] { mults.push_back(std::make_unique<frn::Mult>(net, replicator(n, d), man, correlator(id, n, d, mode, salt++), cd)); };
    if (ahead) for (auto& x : g) if (x.k == 2) make();
    frn::InputSetup setup(net, replicator(n, d), mem::prg((u64)id + 1, vh::seed()));
    frn::Input input(net, man, setup.Run());
    for (int i = 0; i < ni; i++) { if (owner[i] == id) input.Prepare(mem::fld(in[i])); else input.PrepareToReceive((unsigned)owner[i]); }
    auto got = input.Run();
    std::vector<int> pos(n, 0);
    for (int i = 0; i < ni; i++) { VCHECK((int)got[owner[i]].size() > pos[owner[i]], "party %d misses input %d", id, i); W[i] = got[owner[i]][pos[owner[i]]++]; }
    std::vector<char> done(total, 0); for (int i = 0; i < ni; i++) done[i] = 1;
    auto left = [&] { int c = 0; for (char x : done) c += !x; return c; };
    while (left()) {
      std::vector<int> ready;
      for (size_t k = 0; k < g.size(); k++) {
        int o = ni + (int)k; auto& x = g[k];
        if (done[o] || !done[x.a] || (x.k < 3 && !done[x.b])) continue;
        switch (x.k) {
          case 0: W[o] = man.Add(W[x.a], W[x.b]); break;
          case 1: W[o] = man.Subtract(W[x.a], W[x.b]); break;
          case 2: ready.push_back(o); continue;
          case 3: W[o] = man.AddConstant(W[x.a], mem::fld(x.c)); break;
          case 4: W[o] = man.AddConstant(mem::fld(x.c), W[x.a]); break;
          case 5: W[o] = man.SubtractConstant(W[x.a], mem::fld(x.c)); break;
          case 6: W[o] = man.SubtractConstant(mem::fld(x.c), W[x.a]); break;
          default: W[o] = man.MultiplyConstant(W[x.a], mem::fld(x.c)); break;
        }
        done[o] = 1;
      }
      if (ready.empty()) continue;
      if (!batch) ready.resize(1);
      if (!ahead) make();
      frn::Mult& mult = *mults[(size_t)used++];
      for (int o : ready) mult.Prepare(W[g[o - ni].a], W[g[o - ni].b]);
      auto r = mult.Run();
      VCHECK(r.size() == ready.size(), "party %d: %zu products of %zu", id, r.size(), ready.size());
      for (size_t k = 0; k < ready.size(); k++) { W[ready[k]] = r[k]; done[ready[k]] = 1; }
    }
    if (check) {
      frn::Check c(net, replicator(n, d), man, cd);
      c.ComputeRandomCoefficients(); c.PrepareLinearCombinations(); c.PrepareMsgs(); c.ReconstructMsgs();
    }
  });
  if (!e.empty()) vh::fail("%s", e.c_str());
  uint64_t st = (u64)(n * 100 + d);
  for (int o = 0; o < total; o++) {
    char what[60]; snprintf(what, sizeof what, "wire %d", o);
    auto col = column(wires, (size_t)o);
    mem::expect_sharing(col, n, d, plain[o], what);
    st = vh::mix(st, hash_shares(col)); vh::state(st); vh::evals();
  }
  vh::transitions(w.ops + g.size()); vh::traces(); vh::distinct(st);
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence();
  bool th = vh::thorough();
  const auto& al = alphabet();
  auto one = [&](int n, int d, const std::vector<int>& owner, int ops, const std::vector<Gate>& g, int batch, int check, int mode, bool ahead = false) {
    std::vector<u64> in; for (size_t i = 0; i < owner.size(); i++) in.push_back(al[(size_t)(ops + (int)i * 3) % al.size()]);
    std::string o; for (int x : owner) o += std::to_string(x);
    if (vh::begin("n=%d d=%d owners=%s inputs=%d circuit=%s batch=%d check=%d keys=%d ahead=%d", n, d, o.c_str(), ops, str(g).c_str(), batch, check, mode, ahead)) run(n, d, owner, in, g, batch, check, mode, ahead);
  };
  // all gates over w existing wires
  auto gates = [&](int w, const std::vector<u64>& cs) {
    std::vector<Gate> r;
    for (int k = 0; k < 3; k++) for (int a = 0; a < w; a++) for (int b = (k == 1 ? 0 : a); b < w; b++) r.push_back({k, a, b, 0});
    for (int k = 3; k < 8; k++) for (int a = 0; a < w; a++) for (u64 c : cs) r.push_back({k, a, 0, c});
    return r;
  };
  std::vector<u64> c1 = {al[5]}, c2 = {0, model::P - 1};
  if (vh::is_set("large")) {
    std::vector<Gate> deep;                       // a chain of ten products and a wide batch
    for (int i = 0; i < 10; i++) deep.push_back({2, i + 1, i % 2, 0});
    std::vector<Gate> wide; for (int i = 0; i < 12; i++) wide.push_back({2, i % 3, (i / 3) % 3, 0});
    wide.push_back({0, 3, 14, 0}); wide.push_back({2, 15, 4, 0}); wide.push_back({6, 16, 0, al[5]}); wide.push_back({2, 17, 17, 0});
    for (int n = 13; n >= 4; n--) {
      int d = (n - 1) / 3;
      for (int x = 0; x < (n > 10 ? 1 : n); x++) {
        one(n, d, {x, (x + 1) % n, (x + n - 1) % n}, x, n > 10 ? std::vector<Gate>(deep.begin(), deep.begin() + 2) : deep, 1, n <= 11, 1, x % 2);
        if (n <= 10) { one(n, d, {x, x, (x + 2) % n}, x + 1, wide, 1, 1, 1); one(n, d, {x, x, x}, x + 1, wide, 0, 0, 0); }
      }
    }
    // many inputs, two wide layers and a long chain
    for (int n : {4, 5, 7}) for (int w : {40, 257, 300, 1025, 4097, 5000, 16385}) for (int batch = 0; batch < 2; batch++) {
      if ((n == 7 && w > 300) || (!batch && w > 40)) continue;
      if (!vh::begin("n=%d: %d inputs, two layers of %d products, sums, a chain, batch=%d", n, w, w, batch)) continue;
      std::vector<int> owner; std::vector<u64> in; for (int i = 0; i < w; i++) { owner.push_back((i * 3 + i / 7) % n); in.push_back(vh::mix((u64)i, 5) % model::P); }
      std::vector<Gate> g; for (int i = 0; i < w; i++) g.push_back({2, i, (i * 7 + 1) % w, 0});
      for (int i = 0; i < w; i++) g.push_back({i % 3, w + i, w + (i * 5 + 2) % w, 0});
      for (int i = 0; i < 40; i++) g.push_back({2, i ? 3 * w + i - 1 : 2 * w, i % w, 0});
      run(n, (n - 1) / 3, owner, in, g, batch, 1, 1);
    }
    for (int n : {4, 5, 7}) for (int ahead = 0; ahead < 2; ahead++) for (int batch = 0; batch < 2; batch++) for (int ops = 0; ops < 4; ops++) { one(n, (n - 1) / 3, {0, n - 1, 1}, ops, deep, batch, 1, 1, ahead); one(n, (n - 1) / 3, {1, 1, 0}, ops, wide, batch, 1, 1, ahead); }
    for (int n = 6; n <= 9; n++) for (int d = 1; 2 * d < n; d++) if (model::binom(n - 1, d) <= 60) one(n, d, {0, n - 1, d}, 3, deep, 1, 3 * d < n, 1);
    // all one- and two-gate circuits at larger party counts
    for (int n : {7, 10}) for (auto& g1 : gates(2, c1)) { one(n, (n - 1) / 3, {n - 1, 1}, 4, {g1}, 1, 0, 1); if (n == 7) for (auto& g2 : gates(3, c1)) if (g1.k == 2 || g2.k == 2) one(n, 2, {n - 1, 1}, 4, {g1, g2}, 1, 0, 1); }
  }
  if (vh::is_set("small")) {
    // all circuits with one and two gates over two inputs; every pair of owners for one gate
    for (int n = 4; n <= 6; n++) {
      int d = (n - 1) / 3;
      for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (auto& g : gates(2, c1)) one(n, d, {a, b}, a + b, {g}, 1, 0, 1);
      for (auto& g1 : gates(2, c1)) for (auto& g2 : gates(3, n == 4 ? c2 : c1)) one(n, d, {n - 1, 0}, n, {g1, g2}, (g1.a + g2.a) % 2, (g1.k == 2 || g2.k == 2) && n < 6, 1, (g1.a + g2.b) % 2);
    }
    // three gates, at least two of them products, all wirings
    for (auto& g1 : gates(2, c1)) for (auto& g2 : gates(3, c1)) for (auto& g3 : gates(4, c1)) {
      int m = (g1.k == 2) + (g2.k == 2) + (g3.k == 2);
      if (m < (th ? 1 : 2)) continue;
      one(4, 1, {1, 3}, 5, {g1, g2, g3}, (g2.a + g3.a) % 2, 0, 1, (g1.b + g2.b + g3.b) % 2);
    }
  }
  vh::finish();
}
