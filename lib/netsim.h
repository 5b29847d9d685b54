// Whole networks of the code under test inside the controlled scheduler and the simulated kernel:
// one controlled thread per party, sender threads created by the library itself.
#ifndef NETSIM_H
#define NETSIM_H
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "frn/tcp_network.h"
#include "vh.h"
#include "vkernel.h"
#include "vsched.h"

namespace ns {
typedef frn::lib::net::Network Net;
enum Scope { kAll, kTraffic, kConnect };     // what is explored: everything, all after connecting, connecting only
struct Spec {
  int n = 2; int base = 20000; Scope scope = kTraffic; sched::Options o; vk::Config k; std::vector<int> lazy;
  std::function<void(int)> party;            // whole life of a party (connects itself)
  std::function<void()> before, after;
};
inline Spec*& spec() { static Spec* s; return s; }
// called by every party once it is connected; continues when all are, then exploration is switched
inline void ready() {
  Spec& s = *spec(); if (s.scope == kAll) return;
  sched::barrier(s.n, s.scope == kTraffic);
}
inline std::string show(const std::exception& e) { return e.what(); }
inline sched::Stats run(Spec& s) {
  spec() = &s; s.o.frozen = s.scope == kTraffic;
  auto st = sched::explore(s.o, [&] {
    vk::reset(s.k); if (s.before) s.before();
    for (int i = 0; i < s.n; i++) sched::spawn([i, &s] {
      try { s.party(i); }
      catch (const std::exception& e) { vh::fail("party %d: exception: %s | schedule: %s", i, e.what(), sched::schedule().c_str()); }
    }, "party " + std::to_string(i), s.lazy.empty() ? 0 : s.lazy[(size_t)i]);
  }, [&] { vh::evals(); vh::state(sched::trace_hash()); if (s.after) s.after(); });
  vh::transitions(st.steps); vh::traces(st.runs); vh::maximum("executions in one case", st.runs); vh::maximum("longest execution (branching decisions)", st.depth);
  vh::count("branching decisions", st.points);
  return st;
}
inline std::unique_ptr<Net> make(int id, int n, int base) {
  frn::lib::net::Network::Builder b;
  b.TransportType(Net::TransportType::eTcp).Size((size_t)n).LocalPeerId(id).BasePort(base).AllPartiesLocal();
  return std::unique_ptr<Net>(new Net(b.Build()));
}
inline const char* policy_name(int p) { static const char* n[] = {"stay-low", "stay-high", "rotate", "low-first", "high-first"}; return n[p]; }
}  // namespace ns
#endif
