// What one party does in a joint run of the protocols, independent of the network underneath.
#ifndef NETPROG_H
#define NETPROG_H
#include "parties.h"
namespace prog {
using namespace par;
enum Phase { kInput = 1, kMult = 2, kCheck = 4 };
struct Plan { int n = 4, d = 1, phases = 7; std::vector<int> owners; std::vector<int> batches; int keys = kDistinct; };
inline const u64 kIn[] = {3, model::P - 2, 0x1234567890ABCDULL, 1};

inline std::vector<Field> results(const std::vector<Shr>& v) { std::vector<Field> r; for (auto& s : v) for (auto& f : s) r.push_back(f); return r; }
// everything one party computes, in order
inline std::vector<Field> program(std::shared_ptr<frn::Network> net, const Plan& p, frn::ShrManipulator& man) {
  int id = (int)net->Id(); std::vector<Shr> w; std::vector<Field> extra;
  if (p.phases & kInput) {
    frn::InputSetup setup(net, Rep((size_t)p.n, (size_t)p.d), mem::prg((u64)id + 11, 3));
    frn::Input input(net, man, setup.Run());
    for (size_t i = 0; i < p.owners.size(); i++) { if (p.owners[i] == id) input.Prepare(mem::fld(kIn[i % 4])); else input.PrepareToReceive((unsigned)p.owners[i]); }
    auto got = input.Run(); std::vector<size_t> pos((size_t)p.n, 0);
    for (int o : p.owners) w.push_back(got.at((size_t)o).at(pos[(size_t)o]++));
  } else {
    model::Mixer rnd(4); for (size_t i = 0; i < 2; i++) w.push_back(mem::share(kIn[i], p.n, p.d, rnd)[(size_t)id]);
  }
  frn::CheckData cd((unsigned)p.d); int salt = 0;
  for (int b : p.batches) {
    frn::Mult mult(net, Rep((size_t)p.n, (size_t)p.d), man, correlator(id, p.n, p.d, p.keys, salt++), cd);
    for (int k = 0; k < b; k++) mult.Prepare(w[w.size() - 1 - (size_t)k % w.size()], w[(size_t)k % w.size()]);
    auto r = mult.Run(); VCHECK((int)r.size() == b, "party %d: %zu products of %d", id, r.size(), b);
    for (auto& s : r) w.push_back(s);
    if (!w.empty()) w.push_back(man.Add(w.back(), w[0]));
  }
  if (p.phases & kCheck) {
    frn::Check c(net, Rep((size_t)p.n, (size_t)p.d), man, cd);
    c.ComputeRandomCoefficients(); c.PrepareLinearCombinations(); c.PrepareMsgs(); c.ReconstructMsgs();
    for (auto& f : cd.shares_sent_to_p1) extra.push_back(f);
    for (auto& f : cd.values_recv_from_p1) extra.push_back(f);
    for (auto& v : cd.shares_recv_by_p1) for (auto& f : v) extra.push_back(f);
    for (auto& m : cd.msgs) for (auto& f : results(m)) extra.push_back(f);
#ifdef FRN_VERIF_HOOKS
    auto& cc = c.VerifCompressed(); extra.push_back(cc.shares_sent_to_p1); extra.push_back(cc.values_recv_from_p1);
    for (auto& f : cc.shares_recv_by_p1) extra.push_back(f);
    for (auto& f : results(cc.msgs)) extra.push_back(f);
#endif
  }
  auto r = results(w); r.insert(r.end(), extra.begin(), extra.end()); return r;
}
inline std::string str(const Plan& p) {
  std::string s = "n=" + std::to_string(p.n); if (p.phases & kInput) { s += " inputs of"; for (int o : p.owners) s += " " + std::to_string(o); }
  if (!p.batches.empty()) { s += " batches"; for (int b : p.batches) s += " " + std::to_string(b); }
  return s + (p.phases & kCheck ? " verification" : "");
}
}  // namespace prog
#endif
