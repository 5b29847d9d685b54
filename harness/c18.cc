// C18: key setup, input, multiplication and verification over the real TCP network stack, under all
// schedules up to a deviation bound; every party's results are compared with those of a sequential
// execution over an in-memory network, and with the plain values.
#include "netsim.h"
#include "netprog.h"
using namespace prog;
static void play(const Plan& p, ns::Scope scope, std::vector<int> lazy, sched::Options o, vk::Config k, bool build_inside) {
  // the sequential reference
  std::vector<std::vector<Field>> want((size_t)p.n), got((size_t)p.n);
  { mem::World w(p.n); w.keep_log = false;
    std::string e = w.run([&](int id) { want[(size_t)id] = program(mem::net(id, p.n, p.d, w), p, manipulators(p.n, p.d)[(size_t)id]); });
    if (!e.empty()) vh::fail("sequential execution: %s", e.c_str());
    if (!w.leftover().empty()) vh::fail("sequential execution: %s", w.leftover().c_str()); }
  ns::Spec s; s.n = p.n; s.o = o; s.k = k; s.scope = scope; s.lazy = lazy;
  s.before = [&] { for (auto& g : got) g.clear(); };
  s.party = [&](int me) {
    auto net = frn::TcpNetwork::CreateWithLocalParties((unsigned)me, (size_t)p.n, 20000, false);
    net->Connect(); ns::ready();
    if (build_inside) { frn::ShrManipulator man((size_t)me, (size_t)p.d, (size_t)p.n); got[(size_t)me] = program(net, p, man); }
    else { auto man = manipulators(p.n, p.d)[(size_t)me]; got[(size_t)me] = program(net, p, man); }
    net->Close();
  };
  s.after = [&] {
    for (int i = 0; i < p.n; i++) if (got[(size_t)i] != want[(size_t)i]) {
      size_t j = 0; while (j < got[(size_t)i].size() && j < want[(size_t)i].size() && got[(size_t)i][j] == want[(size_t)i][j]) j++;
      vh::fail("party %d obtains %zu elements, the sequential execution %zu; element %zu differs | schedule: %s", i, got[(size_t)i].size(), want[(size_t)i].size(), j, sched::schedule().c_str());
    }
  };
  ns::run(s); vh::distinct_case();
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence(); bool th = vh::thorough(), race = race_run_begin != nullptr;
  std::vector<Plan> plans;
  auto plan = [&](int n, int phases, std::vector<int> owners, std::vector<int> batches) { Plan p; p.n = n; p.d = (n - 1) / 3; p.phases = phases; p.owners = owners; p.batches = batches; plans.push_back(p); };
  plan(4, kInput, {}, {});                                  // key setup and an empty input
  plan(4, kInput, {0, 1, 2, 3, 3}, {});
  plan(4, kMult, {}, {1});
  plan(4, kMult, {}, {2, 0, 1});
  plan(4, kMult | kCheck, {}, {2});
  plan(4, 7, {2, 0}, {2, 1});
  // one protocol each, and all of them in turn: every schedule with one deviation (two, thorough)
  for (size_t i = 0; i < plans.size(); i++) for (int pol = 0; pol < 5; pol++) {
    int buckets = race ? 8 : th ? 16 : 4;
    for (int bu = 0; bu < buckets; bu++) {
      if (race && i != 1 && i != 4 && i != 5) continue;
      if (!th && (race ? pol > 0 && i != 5 : pol > (i == 2 || i == 4 ? 4 : 1))) continue;
      if (!vh::begin("%s, %s, share %d", str(plans[i]).c_str(), ns::policy_name(pol), bu)) continue;
      sched::Options o; o.policy = pol; o.bucket = bu; o.buckets = buckets;
      o.deviations = th && !race && (i == 2 || i == 3) ? 2 : race && !th && i == 5 ? 0 : 1;
      if (o.deviations == 0 && bu) { vh::distinct_case(); continue; }
      play(plans[i], ns::kTraffic, {}, o, {}, race);
    }
  }
  // bounded streams and partial transfers; a party that comes late; connecting included
  if (!race) for (size_t i = 0; i < plans.size(); i++) for (int cap : {1, 8, 20}) for (int pol = 0; pol < 5; pol++) {
    if (!th && cap == 20 && pol > 1) continue;
    if (!vh::begin("%s, streams hold %d bytes, partial transfers, %s", str(plans[i]).c_str(), cap, ns::policy_name(pol))) continue;
    sched::Options o; o.policy = pol; o.deviations = 0; o.env = 1; vk::Config k; k.cap = (size_t)cap; k.short_io = true; if (cap == 1) o.deviations = 0, o.env = 0;
    play(plans[i], ns::kTraffic, {}, o, k, false);
  }
  if (!race) for (size_t i = 0; i < plans.size(); i++) for (int late = 0; late < 4; late++) for (int pol = 0; pol < 5; pol++) {
    if (!th && i < 5 && pol > 1) continue;
    if (!vh::begin("%s, party %d starts late, %s", str(plans[i]).c_str(), late, ns::policy_name(pol))) continue;
    std::vector<int> lazy(4, 0); lazy[(size_t)late] = 3; sched::Options o; o.policy = pol; o.deviations = th || i == 5 ? 1 : 0; o.idle_wakes = 20;
    play(plans[i], ns::kAll, lazy, o, {}, true);
  }
  // more parties
  if (!race) for (int n = 5; n <= (th ? 10 : 8); n++) for (int pol = 0; pol < 5; pol++) for (int bu = 0; bu < (n == 5 || th ? 4 : 1); bu++) {
    Plan p; p.n = n; p.d = (n - 1) / 3; p.phases = 7; p.owners = {n - 1, 0, n / 2}; p.batches = {2, 1};
    if (!vh::begin("%s, %s, share %d", str(p).c_str(), ns::policy_name(pol), bu)) continue;
    sched::Options o; o.policy = pol; o.deviations = (n == 5 && pol < 1 && th) || (th && n <= 7) ? 1 : 0; o.bucket = bu; o.buckets = 4;
    if (o.deviations == 0) { if (bu) { vh::distinct_case(); continue; } o.buckets = 1; }
    play(p, ns::kTraffic, {}, o, {}, false);
  }
  vh::finish();
}
