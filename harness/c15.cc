// C15: connecting networks in every start order; who is connected to whom is read off the simulated
// kernel, and attributed by an identity exchanged over each channel.
#include <set>
#include "netsim.h"

static int g_n, g_base;
static void verify() {
  std::map<std::pair<int, int>, int> seen; std::set<int> ports;
  for (auto& c : vk::connections()) {
    if (c.server_fd < 0) vh::fail("a connection to port %d is never accepted | schedule: %s", c.port, sched::schedule().c_str());
    if (c.server_group >= c.client_group) vh::fail("party %d dials party %d, which has the higher number | schedule: %s", c.client_group, c.server_group, sched::schedule().c_str());
    if (seen[{c.server_group, c.client_group}]++) vh::fail("parties %d and %d are connected more than once", c.server_group, c.client_group);
    if (!ports.insert(c.port).second) vh::fail("port %d serves more than one pair of parties", c.port);
    if (c.port < g_base || c.port > 65535) vh::fail("port %d is used with base port %d", c.port, g_base);
    if (c.addr != 0 && c.addr >> 24 != 127) vh::fail("with all parties local, address %08x is dialled", c.addr);
  }
  if ((int)seen.size() != g_n * (g_n - 1) / 2) vh::fail("%zu pairs of parties are connected, expected %d", seen.size(), g_n * (g_n - 1) / 2);
  std::set<std::pair<int, int>> l(vk::listened().begin(), vk::listened().end());
  std::set<int> lp; for (auto& x : l) if (!lp.insert(x.second).second) vh::fail("two parties listen on port %d", x.second);
  if ((int)l.size() != g_n * (g_n - 1) / 2) vh::fail("%zu ports are listened on, expected %d", l.size(), g_n * (g_n - 1) / 2);
}
static void connect(int n, int base, std::vector<int> lazy, sched::Options o, bool exchange, bool tcp) {
  ns::Spec s; s.n = n; s.base = base; s.o = o; s.lazy = lazy; s.scope = ns::kConnect; g_n = n; g_base = base;
  s.party = [&](int me) {
    auto talk = [&](auto& net, auto send, auto recv) {
      if (!exchange) return;
      for (int j = 0; j < n; j++) { unsigned char b[2] = {(unsigned char)(me + 1), (unsigned char)(j + 1)}; send(j, b); }
      for (int j = 0; j < n; j++) { unsigned char b[2] = {0, 0}; recv(j, b); if (b[0] != j + 1 || b[1] != me + 1) vh::fail("party %d expects party %d on its channel, but it is party %d talking to party %d | schedule: %s", me, j, b[0] - 1, b[1] - 1, sched::schedule().c_str()); }
      (void)net;
    };
    if (tcp) {
      auto net = frn::TcpNetwork::CreateWithLocalParties((unsigned)me, (size_t)n, (unsigned)base, false); net->Connect(); ns::ready();
      talk(net, [&](int j, unsigned char* b) { net->SendBytes((unsigned)j, {b[0], b[1]}); }, [&](int j, unsigned char* b) { auto v = net->RecvBytes((unsigned)j, 2); b[0] = v.at(0); b[1] = v.at(1); });
      net->Close();
    } else {
      auto net = ns::make(me, n, base); net->Connect(); ns::ready();
      if ((int)net->Size() != n || net->LocalPeerId() != me) vh::fail("party %d of %d: the network reports %d of %zu", me, n, net->LocalPeerId(), net->Size());
      talk(net, [&](int j, unsigned char* b) { net->SendTo(j, b, 2); }, [&](int j, unsigned char* b) { net->RecvFrom(j, b, 2); });
      net->Close();
    }
  };
  s.after = [] { verify(); vh::maximum("dials refused in one execution", (uint64_t)vk::failed_connects()); };
  ns::run(s); vh::distinct_case();
}
int main(int argc, char** argv) {
  vh::init(argc, argv); bool th = vh::thorough(), race = race_run_begin != nullptr;
  // all interleavings up to the bound, everybody starting at once or late
  for (int n = 2; n <= 4; n++) for (int late = 0; late < 1 << n; late++) for (int pol = 0; pol < 5; pol++) for (int bu = 0; bu < (n == 2 ? 1 : n == 3 ? 2 : 4); bu++) {
    if (late == (1 << n) - 1 || (race && n == 4 && late)) continue;
    if (!vh::begin("%d parties, late starters %x, %s, share %d", n, late, ns::policy_name(pol), bu)) continue;
    std::vector<int> lazy; for (int i = 0; i < n; i++) lazy.push_back(late >> i & 1 ? 2 + i : 0);
    sched::Options o; o.policy = pol; o.deviations = race ? 1 : n == 2 ? (th ? 6 : 4) : n == 3 ? (th ? 3 : 2) : (th ? 2 : 1); o.bucket = bu; o.buckets = n == 2 ? 1 : n == 3 ? 2 : 4; o.idle_wakes = 8;
    connect(n, 20000, lazy, o, true, n > 3 && bu % 2);
  }
  // a party that starts much later than the others: many refused dials
  for (int n = 2; n <= 4; n++) for (int k = 0; k < n; k++) for (int wait : {1, 10, 100, 1000}) {
    if (!vh::begin("%d parties, party %d starts after %d retries", n, k, wait)) continue;
    std::vector<int> lazy((size_t)n, 0); lazy[(size_t)k] = wait; sched::Options o; o.deviations = 0; o.idle_wakes = 20; connect(n, 30000, lazy, o, true, false);
  }
  // every order of starting, one after the other has gone as far as it can
  for (int n = 2; n <= 4; n++) { std::vector<int> perm; for (int i = 0; i < n; i++) perm.push_back(i); do {
    if (!vh::begin("%d parties started in the order %d%d%d%d", n, perm[0], perm[1], n > 2 ? perm[2] : -1, n > 3 ? perm[3] : -1)) continue;
    std::vector<int> lazy((size_t)n); for (int i = 0; i < n; i++) lazy[(size_t)perm[(size_t)i]] = 3 * i; sched::Options o; o.deviations = 1; o.idle_wakes = 20; connect(n, 12345, lazy, o, true, n > 3);
  } while (std::next_permutation(perm.begin(), perm.end())); }
  // ports, roles and pairing for larger networks
  if (!race) for (int n = 1; n <= 16; n++) for (int base : {1025, 9876, 30000, 65535 - n * n + 1}) for (int pol = 0; pol < 5; pol++) {
    if (!vh::begin("%d parties, base port %d, %s", n, base, ns::policy_name(pol))) continue;
    sched::Options o; o.policy = pol; o.deviations = 0; connect(n, base, {}, o, true, base == 9876 && n > 3);
  }
  if (!race) for (int n : {17, 20, 25, 30, 33}) for (int base : {9876, 65535 - n * n + 1}) for (int pol = 0; pol < 5; pol++) {
    if (n > 25 && !th && pol > 1) continue;
    if (!vh::begin("%d parties, base port %d, %s", n, base, ns::policy_name(pol))) continue;
    sched::Options o; o.policy = pol; o.deviations = 0; o.steps = 3000000; connect(n, base, {}, o, true, false);
  }
  vh::finish();
}
