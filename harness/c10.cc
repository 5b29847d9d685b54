// C10: exact distribution of what a coalition of at most d parties receives in the input and
// multiplication protocols, for different secrets, by exhausting all generator outputs the
// coalition does not know, on the real protocol code over F_p.
// mem.h runs the parties as fibers over an in-memory network and logs every message.
#include "dist.h"
#include "parties.h"
#include <set>
using namespace par;
typedef std::vector<u64> U;

static dist::Tape tape;
static dist::RandomFunction rf;
static std::set<std::string> known;        // seeds the coalition can evaluate the generator on
static std::set<std::string> tape_seeds;   // seeds always enumerated, known or not
static int outer;                          // which fixed function answers for known seeds
static bool dynamic_known;                 // seeds are field elements: known if received by the coalition
static std::function<bool(const std::string&)> is_known;
static u64 fixed_value(const std::string& k, u64 lane) {
  if (outer == 0) return 0;
  if (outer == 1) return 1 % MODEL_P;
  return vh::mix(vh::hash_str(k), lane * 1315423911ULL + (u64)outer) % MODEL_P;
}
static u64 ask(const tiny::Key& key, u64 lane) {
  std::string k = rf.key(key);
  auto id = std::make_pair(k, lane);
  auto it = rf.memo.find(id); if (it != rf.memo.end()) return it->second;
  u64 v = (!tape_seeds.count(k) && is_known(k)) ? fixed_value(k, lane) : (u64)tape.choose();
  rf.memo[id] = v;
  return v;
}
static std::string seed16(u64 a, u64 b) { std::string s(16, 0); memcpy(&s[0], &a, 8); memcpy(&s[8], &b, 8); return s; }
static u64 view_hash(const mem::World& w, unsigned coal) {
  u64 h = 3;
  for (int to = 0; to < w.n; to++) {
    if (!(coal >> to & 1)) continue;
    for (int from = 0; from < w.n; from++) {      // per sender in order: timing is not part of a view
      h = vh::mix(h, (u64)(to * 64 + from));
      for (auto& m : w.log) if (m.to == to && m.from == from) { for (u64 x : m.v) h = vh::mix(h, x + 1); h = vh::mix(h, m.v.size() + 1000); }
    }
  }
  return h;
}
static std::string mask_str(unsigned c) { std::string s; for (int i = 0; i < 30; i++) if (c >> i & 1) s += (s.empty() ? "P" : ",P") + std::to_string(i); return s; }

// exhausts run() for each secret vector; run returns false when the execution is outside the
// condition of the property (e.g. colliding keys)
template <class Run> void compare(const std::vector<U>& secrets, unsigned coal, Run run, const char* what) {
  dist::Hist first; bool have = false;
  for (auto& s : secrets) {
    dist::Hist h; tape = dist::Tape(); u64 n = 0;
    do {
      tape.rewind(); rf.memo.clear(); tiny::oracle = ask;
      u64 view; bool counts = run(s, view);
      if (counts) h[view] += dist::weight(tape.pos);
      vh::evals(); vh::transitions(tape.pos);
      if ((++n & 255) == 0) { vh::progress(); if (vh::abandon()) return; }
    } while (tape.next());
    vh::traces(n);
    if (h.empty()) vh::die("no execution satisfies the condition");
    for (auto& kv : h) vh::state(vh::mix(kv.first, coal));
    if (!have) { first = h; have = true; vh::distinct(dist::hist_hash(h)); }
    else if (!dist::equal(first, h)) {
      std::string a, b; for (u64 x : secrets[0]) a += " " + std::to_string(x); for (u64 x : s) b += " " + std::to_string(x);
      vh::fail("%s: what {%s} receives is distributed differently for the secrets%s and%s (%zu and %zu different views)", what, mask_str(coal).c_str(), a.c_str(), b.c_str(), first.size(), h.size());
    }
  }
}
static std::vector<U> secret_vectors(size_t k, bool all) {
  std::vector<U> r{{}};
  if (all) { for (size_t i = 0; i < k; i++) { std::vector<U> n; for (auto& x : r) for (u64 v = 0; v < MODEL_P; v++) { auto y = x; y.push_back(v); n.push_back(y); } r = n; } return r; }
  r.clear();
  r.push_back(U(k, 0)); r.push_back(U(k, 1)); r.push_back(U(k, MODEL_P - 1));
  for (size_t i = 0; i < k; i++) { U x(k, 0); x[i] = 1; r.push_back(x); x = U(k, MODEL_P - 1); x[i] = 0; r.push_back(x); }
  U y; for (size_t i = 0; i < k; i++) y.push_back((i * 3 + 1) % MODEL_P); r.push_back(y);
  std::set<U> seen; std::vector<U> u; for (auto& x : r) if (seen.insert(x).second) u.push_back(x);
  return u;
}

// ---- (1) input protocol with ideal, distinct keys; supplier i, m values each from the suppliers in sup
static void input_ideal(int n, int d, unsigned coal, const std::vector<int>& counts, int out_fn, bool all) {
  const auto& pl = model::placement(n, d);
  auto keyname = [&](int i, int s) { return seed16(1000 + (u64)i, 1 + (u64)s); };
  known.clear(); tape_seeds.clear(); outer = out_fn;
  for (int i = 0; i < n; i++) for (int s = 0; s < pl.add_size(); s++) if ((pl.sets[(size_t)s] & coal) || (coal >> i & 1)) known.insert(keyname(i, s));
  is_known = [](const std::string& k) { return known.count(k) > 0 || k == seed16(0, 0); };
  auto gen = [&](int i, int s) { return PRG((const unsigned char*)keyname(i, s).data()); };
  // only the secrets of suppliers outside the coalition vary
  std::vector<int> who; for (int i = 0; i < n; i++) if (!(coal >> i & 1)) for (int j = 0; j < counts[(size_t)i]; j++) who.push_back(i);
  auto& man = manipulators(n, d);
  compare(secret_vectors(who.size(), all), coal, [&](const U& sec, u64& view) {
    mem::World w(n);
    std::string e = w.run([&](int id) {
      std::vector<std::vector<PRG>> prgs; for (int i = 0; i < n; i++) { prgs.emplace_back(); for (int s : pl.of[(size_t)id]) prgs.back().push_back(gen(i, s)); }
      std::vector<PRG> own; for (int s = 0; s < pl.add_size(); s++) own.push_back(gen(id, s));
      frn::Input in(mem::net(id, n, d, w), man[(size_t)id], frn::InputSetup::Correlator(prgs, own, (size_t)pl.share_size()));
      size_t p = 0;
      for (int i = 0; i < n; i++) for (int j = 0; j < counts[(size_t)i]; j++) {
        u64 v = (coal >> i & 1) ? 1 : sec[p++];
        if (i == id) in.Prepare(mem::fld(v)); else in.PrepareToReceive((unsigned)i);
      }
      in.Run();
    });
    if (!e.empty()) vh::fail("%s", e.c_str());
    view = view_hash(w, coal);
    return true;
  }, "input");
}
// ---- (2) key setup and input together; condition: the supplier's keys are distinct and non-zero
static void input_setup(int n, int d, unsigned coal, int sup, int m, int out_fn, bool all) {
  const auto& pl = model::placement(n, d);
  outer = out_fn;
  auto initial = [&](int i) { return seed16(5000 + (u64)i, 77); };
  tape_seeds.clear(); tape_seeds.insert(initial(sup));
  auto& man = manipulators(n, d); auto& rep = replicator(n, d);
  compare(secret_vectors((size_t)m, all), coal, [&](const U& sec, u64& view) {
    mem::World w(n); bool keys_ok = true, checked = false;
    auto element = [&](const std::string& k, u64& v) { for (int i = 8; i < 16; i++) if (k[(size_t)i]) return false; memcpy(&v, k.data(), 8); return true; };
    is_known = [&](const std::string& k) {
      u64 v;
      if (!element(k, v)) return true;                       // initial generators of parties that supply nothing: fixed
      if (v == 0) return true;
      for (auto& msg : w.log) if ((coal >> msg.to & 1) && msg.from == sup) for (u64 x : msg.v) if (x == v) return true;
      return false;
    };
    size_t setup_end = 0;
    std::string e = w.run([&](int id) {
      auto net = mem::net(id, n, d, w);
      frn::InputSetup setup(net, rep, PRG((const unsigned char*)initial(id).data()));
      auto corr = setup.Run();
      frn::Input in(net, man[(size_t)id], corr);
      if (!checked && id == sup) {
        checked = true; std::map<int, u64> el;      // additive share -> key element, from what the supplier sent
        std::vector<U> got((size_t)n); for (auto& msg : w.log) if (msg.from == sup) for (u64 x : msg.v) got[(size_t)msg.to].push_back(x);
        for (int j = 0; j < n; j++) {
          if ((int)got[(size_t)j].size() != pl.share_size()) vh::fail("the key setup sends %zu elements to P%d, its position entitles it to %d", got[(size_t)j].size(), j, pl.share_size());
          for (int k = 0; k < pl.share_size(); k++) { int s = pl.of[(size_t)j][(size_t)k]; if (el.count(s) && el[s] != got[(size_t)j][(size_t)k]) vh::fail("the key setup sends P%d an element that is not its own", j); el[s] = got[(size_t)j][(size_t)k]; }
        }
        std::set<u64> ks; for (auto& kv : el) { if (!kv.second) keys_ok = false; ks.insert(kv.second); }
        if (ks.size() != el.size()) keys_ok = false;
      }
      if (!keys_ok) return;           // still runs to the end of the setup; not counted
      for (int j = 0; j < m; j++) if (id == sup) in.Prepare(mem::fld(sec[(size_t)j])); else in.PrepareToReceive((unsigned)sup);
      in.Run();
    });
    if (!keys_ok) return false;
    if (!e.empty()) vh::fail("%s", e.c_str());
    (void)setup_end;
    view = view_hash(w, coal);
    return true;
  }, "key setup and input");
}
// ---- (3) multiplication with ideal, distinct keys; secrets x_k, y_k
static void mult(int n, int d, unsigned coal, int m, int out_fn, bool all) {
  const auto& pl = model::placement(n, d);
  auto keyname = [&](int j, int s) { return seed16(2000 + (u64)j, 1 + (u64)s); };
  known.clear(); tape_seeds.clear(); outer = out_fn;
  for (int j = 0; j < 2 * d + 1; j++) for (int s = 0; s < pl.add_size(); s++) if ((pl.sets[(size_t)s] & coal) || (coal >> j & 1)) known.insert(keyname(j, s));
  is_known = [](const std::string& k) { return known.count(k) > 0 || k == seed16(0, 0); };
  auto gen = [&](int j, int s) { return PRG((const unsigned char*)keyname(j, s).data()); };
  int miss = -1; for (int s = 0; s < pl.add_size(); s++) if (!(pl.sets[(size_t)s] & coal)) miss = s;
  if (miss < 0) vh::die("coalition holds everything");
  auto& man = manipulators(n, d); auto& rep = replicator(n, d);
  // shares of v: what the coalition holds is fixed by the outer function, the missing element by v
  auto shares = [&](u64 v, u64 salt) {
    U a((size_t)pl.add_size()); u64 sum = 0;
    for (int s = 0; s < pl.add_size(); s++) if (s != miss) { a[(size_t)s] = outer == 0 ? 0 : outer == 1 ? 1 % MODEL_P : vh::mix(salt * 77 + (u64)outer, (u64)s) % MODEL_P; sum = model::add(sum, a[(size_t)s]); }
    a[(size_t)miss] = model::sub(v, sum);
    std::vector<Shr> r((size_t)n); for (int i = 0; i < n; i++) for (int s : pl.of[(size_t)i]) r[(size_t)i].push_back(mem::fld(a[(size_t)s]));
    return r;
  };
  compare(secret_vectors((size_t)(2 * m), all), coal, [&](const U& sec, u64& view) {
    std::vector<std::vector<Shr>> x, y; for (int k = 0; k < m; k++) { x.push_back(shares(sec[(size_t)(2 * k)], 1 + (u64)k)); y.push_back(shares(sec[(size_t)(2 * k + 1)], 100 + (u64)k)); }
    mem::World w(n);
    std::vector<std::unique_ptr<frn::CheckData>> cd; for (int i = 0; i < n; i++) cd.emplace_back(new frn::CheckData((unsigned)d));
    std::string e = w.run([&](int id) {
      frn::Correlator c((unsigned)id, rep);
      if (id < 2 * d + 1) { std::vector<PRG> own; for (int s = 0; s < pl.add_size(); s++) own.push_back(gen(id, s)); c.SetOwnPRGs(own); }
      for (int j = 0; j < 2 * d + 1; j++) { std::vector<PRG> r; for (int s : pl.of[(size_t)id]) r.push_back(gen(j, s)); c.SetRandPRGs(r, (unsigned)j); }
      frn::Mult mu(mem::net(id, n, d, w), rep, man[(size_t)id], c, *cd[(size_t)id]);
      for (int k = 0; k < m; k++) mu.Prepare(x[(size_t)k][(size_t)id], y[(size_t)k][(size_t)id]);
      mu.Run();
    });
    if (!e.empty()) vh::fail("%s", e.c_str());
    view = view_hash(w, coal);
    return true;
  }, "multiplication");
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence();
  const bool th = vh::thorough(); const int p = (int)MODEL_P;
  auto pw = [&](int k) { double c = 1; for (int i = 0; i < k; i++) c *= p; return c; };
  auto str = [](const std::vector<int>& v) { std::string s; for (int x : v) s += std::to_string(x); return s; };
  if (p <= 3) {
    const double lim = th ? 1e6 : 1.5e3;
    // input, ideal keys
    for (int n = 4; n <= (th ? 8 : 7); n++) {
      int d = (n - 1) / 3;
      for (int dd = 1; dd <= d; dd++) for (unsigned coal : model::subsets(n, dd)) {
        std::vector<std::vector<int>> cs;
        if (n <= (th ? 5 : 4)) { for (int k = 0; k < 81 * (n == 5 ? 3 : 1); k++) { std::vector<int> c; int x = k; for (int i = 0; i < n; i++) { c.push_back(x % 3); x /= 3; } cs.push_back(c); } }
        else for (int i = 0; i < n; i++) for (int a = 1; a <= 3; a++) { std::vector<int> c((size_t)n, 0); c[(size_t)i] = a; c[(size_t)((i + 3) % n)] = 1; cs.push_back(c); }
        for (auto& c : cs) {
          int hidden = 0, total = 0; for (int i = 0; i < n; i++) { total += c[(size_t)i]; if (!(coal >> i & 1)) hidden += c[(size_t)i]; }
          int unk = 0; for (unsigned s : model::placement(n, dd).sets) unk += !(s & coal);
          double per = n <= 5 ? 1 : 6, vectors = 2 * hidden + 4;
          if (!hidden || pw(hidden * unk) * vectors * per > lim * 4) continue;
          bool all = pw(hidden * unk + hidden) * per <= lim * 4;
          for (int o = 0; o < (th ? 6 : 2); o++) { if (!vh::begin("F_%d input: n=%d d=%d counts=%s coalition {%s} fixed=%d", p, n, dd, str(c).c_str(), mask_str(coal).c_str(), o)) continue; input_ideal(n, dd, coal, c, o, all); }
        }
      }
    }
    // multiplication
    for (int n = 4; n <= (th ? 10 : 8); n++) for (int d = 1; 3 * d < n; d++) for (unsigned coal : model::subsets(n, d)) for (int m = 1; m <= 4; m++) {
      int unk = 2 * d + 1 - __builtin_popcount(coal & ((1u << (2 * d + 1)) - 1));
      double per = n <= 5 ? 1 : n <= 7 ? 4 : 20;
      double vectors = 4 * m + 4;
      if (pw(unk * m) * per * vectors > lim * 8) continue;
      bool all = pw(unk * m + 2 * m) * per <= lim * 8;
      for (int o = 0; o < (th ? 8 : 3); o++) { if (!vh::begin("F_%d multiplication: n=%d d=%d batch=%d coalition {%s} fixed=%d", p, n, d, m, mask_str(coal).c_str(), o)) continue; mult(n, d, coal, m, o, all); }
    }
  } else {
    for (int n = 4; n <= (p == 7 ? 5 : 4); n++) for (unsigned coal : model::subsets(n, 1)) for (int sup = 0; sup < n; sup++) {
      if (coal >> sup & 1) continue;
      for (int m = 1; m <= (p == 5 && th ? 2 : 1); m++) {
        if (!th && p == 7 && n == 5) continue;
        for (int o = 2; o < (th ? 5 : 3); o++) { if (!vh::begin("F_%d key setup and input: n=%d supplier P%d, %d value(s), coalition {%s} fixed=%d", p, n, sup, m, mask_str(coal).c_str(), o)) continue; input_setup(n, 1, coal, sup, m, o, p == 5 && m == 1); }
      }
    }
  }
  vh::finish();
}
