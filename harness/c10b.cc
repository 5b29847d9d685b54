// C10, long histories over the real field and generator: when the same secrets are processed over
// and over, no two masked values may coincide (a repeated mask would reveal the difference of two
// secrets). Every history here is one execution; lengths cover several blocks, bytes and pages of
// generator output, single and vector preparation, and all parties as suppliers.
#include "parties.h"
#include <set>
using namespace par;

static void all_distinct(const mem::World& w, const char* what) {
  for (int from = 0; from < w.n; from++) {
    std::set<u64> seen; std::vector<std::vector<u64>> to((size_t)w.n);
    for (auto& m : w.log) if (m.from == from) for (u64 x : m.v) to[(size_t)m.to].push_back(x);
    for (int k = 0; k < w.n; k++) {
      seen.clear();
      size_t n = to[(size_t)k].size();
      for (size_t i = 0; i < n; i++) if (!seen.insert(to[(size_t)k][i]).second) vh::fail("%s: the value %zu that P%d sends to P%d repeats an earlier one although only the mask differs", what, i, from, k);
      vh::evals(n);
    }
  }
}
// masked inputs of different suppliers must differ as well
static void across(const mem::World& w, const char* what) {
  std::map<u64, int> owner;
  for (auto& m : w.log) for (u64 x : m.v) { auto r = owner.insert({x, m.from}); if (r.first->second != m.from) vh::fail("%s: P%d and P%d broadcast the same masked value", what, r.first->second, m.from); }
}
static void input(int n, int d, int count, int style, int m_setups, bool one_object = false) {
  mem::World w(n); auto& man = manipulators(n, d); auto& rep = replicator(n, d);
  std::string e = w.run([&](int id) {
    auto net = mem::net(id, n, d, w);
    frn::InputSetup again(net, rep, mem::prg(1000 + (u64)id, 7));     // one setup object, run more than once
    for (int k = 0; k < m_setups; k++) {
      frn::InputSetup fresh(net, rep, mem::prg(1000 + (u64)id, 7 + (u64)k));
      auto corr = one_object ? again.Run() : fresh.Run();
      frn::Input in(net, man[(size_t)id], corr);
      std::vector<Field> v((size_t)count, mem::fld(42));
      if (style & 1) in.Prepare(v); else for (auto& x : v) in.Prepare(x);
      for (int i = 0; i < n; i++) if (i != id) { if (style & 2) in.PrepareToReceive((unsigned)i, (size_t)count); else for (int j = 0; j < count; j++) in.PrepareToReceive((unsigned)i); }
      in.Run();
    }
  });
  if (!e.empty()) vh::fail("%s", e.c_str());
    all_distinct(w, "input"); across(w, "input");
  vh::traces(); vh::transitions(w.ops); vh::distinct_case(); u64 h = 1; for (auto& m : w.log) for (u64 x : m.v) { h = vh::mix(h, x); vh::state(h); }
}
static void mult(int n, int d, int count, int style) {
  mem::World w(n); auto& man = manipulators(n, d); auto& rep = replicator(n, d);
  model::Mixer rnd(5); auto x = mem::share(3, n, d, rnd), y = mem::share(4, n, d, rnd);
  std::string e = w.run([&](int id) {
    frn::CheckData cd((unsigned)d);
    frn::Mult mu(mem::net(id, n, d, w), rep, man[(size_t)id], correlator(id, n, d, kDistinct, 3), cd);
    if (style) mu.Prepare(std::vector<Shr>((size_t)count, x[(size_t)id]), std::vector<Shr>((size_t)count, y[(size_t)id]));
    else for (int k = 0; k < count; k++) mu.Prepare(x[(size_t)id], y[(size_t)id]);
    mu.Run();
  });
  if (!e.empty()) vh::fail("%s", e.c_str());
  // what each contributor sends to P0 first, then the openings
  mem::World up(n), down(n);
  std::vector<size_t> got((size_t)n);
  for (auto& m : w.log) {
    bool opening = m.from == 0 && (m.to != 0 || got[0] >= (size_t)count);
    if (m.from == 0 && m.to == 0) got[0] += m.v.size();
    (opening ? down : up).log.push_back(m);
  }
  all_distinct(up, "multiplication shares"); all_distinct(down, "opened values");
  vh::traces(); vh::transitions(w.ops); vh::distinct_case(); u64 h = 1; for (auto& m : w.log) for (u64 v : m.v) { h = vh::mix(h, v); vh::state(h); }
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence();
  bool th = vh::thorough();
  for (int n = 4; n <= (th ? 10 : 7); n++) for (int d = 1; 3 * d < n; d++) {
    for (int c : {9, 65, 257, 300, 1025, 4097, 9999, 10001, th ? 70000 : 20000}) {
      if (c > 4097 && n > 4) continue;
      for (int style = 0; style < 4; style++) {
        if (c > 400 && style % 3) continue;
        if (vh::begin("inputs: n=%d d=%d %d values per party style=%d", n, d, c, style)) input(n, d, c, style, 1);
      }
      for (int style = 0; style < 2; style++) if (vh::begin("products: n=%d d=%d batch of %d style=%d", n, d, c, style)) mult(n, d, c, style);
    }
    for (int k = 2; k <= 4; k++) for (int style = 0; style < 4; style++) if (vh::begin("one key setup run %d times: n=%d d=%d style=%d", k, n, d, style)) input(n, d, 20, style, k, true);
    for (int k = 2; k <= 3; k++) if (vh::begin("%d key setups with distinct generators: n=%d d=%d", k, n, d)) input(n, d, 40, 0, k);
  }
  vh::finish();
}
