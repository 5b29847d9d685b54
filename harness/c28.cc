// C28: the simulated kernel keeps a ledger of every descriptor.
#include "netsim.h"
static void play(int n, int networks, int traffic, std::vector<int> lazy, sched::Options o) {
  ns::Spec s; s.n = n; s.o = o; s.lazy = lazy; s.scope = ns::kAll;
  s.party = [&](int me) {
    // one after the other on the same ports, or side by side
    if (networks == 3) {
      auto a = ns::make(me, n, 20000), b = ns::make(me, n, 21000); a->Connect(); b->Connect();
      unsigned char c = 7; for (int j = 0; j < n; j++) { a->SendTo(j, &c, 1); b->RecvFrom(j, &c, 0); a->RecvFrom(j, &c, 1); }
      b->Close(); a->Close();
      return;
    }
    if (networks >= 4) {  // closed more than once, or without having been connected
      auto idle = ns::make(me, n, 23000), net = ns::make(me, n, 20000);
      if (networks == 4) idle->Close();
      net->Connect();
      unsigned char c = (unsigned char)me; for (int j = 0; j < n; j++) net->SendTo(j, &c, 1);
      if (networks == 5) idle->Close();
      for (int j = 0; j < n; j++) { net->RecvFrom(j, &c, 1); VCHECK(c == j, "party %d got %d from party %d", me, c, j); }
      net->Close(); if (networks == 5) { net->Close(); idle->Close(); }
      return;
    }
    for (int k = 0; k < networks; k++) {
      auto net = ns::make(me, n, 20000 + k * 100); net->Connect();
      std::vector<unsigned char> b(4, (unsigned char)me);
      if (traffic & 1) net->Broadcast(b.data(), 3);
      if (traffic == 3) for (int j = 0; j < n; j++) net->RecvFrom(j, b.data(), 3);
      // a peer that reads nothing may be gone before it got everything, which is reported
      try { net->Close(); } catch (const std::exception&) { if (traffic != 1) throw; }
    }
  };
  s.after = [] { std::string x = vk::ledger(); if (!x.empty()) vh::fail("%s | schedule: %s", x.c_str(), sched::schedule().c_str()); vh::maximum("descriptors in one execution", vk::descriptors().size()); };
  ns::run(s); vh::distinct_case();
}
int main(int argc, char** argv) {
  vh::init(argc, argv); bool th = vh::thorough();
  for (int n = 1; n <= 4; n++) for (int networks = 1; networks <= 5; networks++) for (int traffic : {0, 1, 3}) for (int late = 0; late < n; late++) for (int pol = 0; pol < 5; pol++) for (int bu = 0; bu < (n < 3 ? 1 : 4); bu++) {
    if (networks >= 3 && traffic != 3) continue;
    if (networks > 1 && n > 3 && (late || !th)) continue;
    if (!vh::begin("%d parties, %s, %s, %s, party %d %s, share %d", n, networks == 1 ? "one network" : networks == 2 ? "two networks in turn" : networks == 3 ? "two networks side by side" : networks == 4 ? "another network closed without connecting" : "networks closed repeatedly", !traffic ? "no traffic" : traffic == 1 ? "unread traffic" : "traffic", ns::policy_name(pol), late, late ? "starts late" : "first", bu)) continue;
    std::vector<int> lazy((size_t)n, 0); if (late) lazy[(size_t)late] = 3;
    sched::Options o; o.policy = pol; o.deviations = n == 1 ? 3 : n == 2 ? (networks == 1 || th ? 2 : 1) : n == 3 && th ? 2 : n == 4 && networks > 1 ? 0 : 1; o.bucket = bu; o.buckets = n < 3 ? 1 : 4; o.idle_wakes = 8;
    play(n, networks, traffic, lazy, o);
  }
  for (int n = 5; n <= 8; n++) for (int pol = 0; pol < 5; pol++) { if (!vh::begin("%d parties, %s", n, ns::policy_name(pol))) continue; sched::Options o; o.policy = pol; o.deviations = 0; play(n, 1, 3, {}, o); }
  vh::finish();
}
