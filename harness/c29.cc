// C29: networks given up at every point of their life: destroyed without having been closed, after an
// exception, after a failed set-up or a failed close; the kernel's ledger, the threads and the peers.
#include <system_error>
#include "netsim.h"
enum Op { kSend, kRecv, kSelf, kClose };         // a byte to the next party, from the previous one, to and from itself, close
typedef std::vector<int> Script;                 // what a party does before it gives its network up
static int g_given_up[8], g_dead[8], g_exceptions[8]; static size_t g_sent[8];
static void party(int me, int n, const Script& s, bool connect, size_t len) {
  bool connected = false;
  {
    auto net = ns::make(me, n, 20000);
    try {
      if (connect) net->Connect();
      connected = connect;
      std::vector<unsigned char> b(len, (unsigned char)me);
      for (int op : s) {
        int next = (me + 1) % n, prev = (me + n - 1) % n;
        std::fill(b.begin(), b.end(), (unsigned char)me);
        if (op == kSend) { net->SendTo(next, b.data(), len); g_sent[me] += len; }
        else if (op == kRecv) { net->RecvFrom(prev, b.data(), len); for (unsigned char x : b) VCHECK(x == prev, "party %d got %d from party %d", me, x, prev); }
        else if (op == kSelf) { net->SendTo(me, b.data(), len); net->RecvFrom(me, b.data(), 1); }
        else net->Close();
      }
    } catch (const sched::Aborted&) { g_dead[me] = 1; }
    catch (const std::exception&) { g_exceptions[me]++; }
    if (connect && !connected && !g_dead[me]) vh::count("networks given up half set up");
  }
  g_given_up[me] = 1;
  if (!g_dead[me]) if (int k = sched::live_in_group(me)) vh::fail("party %d: the network is gone, but %d of its sender threads are still running | schedule: %s", me, k, sched::schedule().c_str());
}
static std::string str(const Script& s) { std::string r; for (int o : s) r += "srlc"[o]; return r.empty() ? "-" : r; }
static std::string str(const std::vector<Script>& v) { std::string r; for (auto& s : v) r += (r.empty() ? "" : "|") + str(s); return r; }
// Can everybody come to an end? A receive ends when something arrived or the sender has given up.
static bool sound(const std::vector<Script>& sc) {
  size_t n = sc.size(); std::vector<size_t> at(n, 0), sent(n, 0), got(n, 0);
  for (bool more = true; more;) {
    more = false;
    for (size_t i = 0; i < n; i++) while (at[i] < sc[i].size()) {
      size_t prev = (i + n - 1) % n; int op = sc[i][at[i]];
      if (op == kRecv && got[i] >= sent[prev] && (n == 1 || at[prev] < sc[prev].size())) break;
      if (op == kSend) sent[i]++;
      if (op == kRecv) got[i]++;
      at[i]++; more = true;
    }
  }
  for (size_t i = 0; i < n; i++) if (at[i] < sc[i].size()) return false;
  return true;
}
static const unsigned kSetup = 1u << vk::kSocket | 1u << vk::kSetopt | 1u << vk::kBind | 1u << vk::kListen | 1u << vk::kAccept | 1u << vk::kConnect, kIo = 1u << vk::kRead | 1u << vk::kWrite, kEnd = 1u << vk::kClose;
static void play(const std::vector<Script>& sc, bool connect, size_t len, std::vector<int> lazy, sched::Options o, vk::Config k) {
  ns::Spec s; s.n = (int)sc.size(); s.o = o; s.k = k; s.lazy = lazy; s.scope = ns::kAll; s.o.idle_wakes = lazy.empty() ? 3 : 8; s.o.steps = 20000;
  s.o.expect_deadlock = k.faults & (kSetup | kEnd);        // whoever's peer could not be set up may wait for it
  s.before = [] { memset(g_given_up, 0, sizeof g_given_up); memset(g_dead, 0, sizeof g_dead); memset(g_exceptions, 0, sizeof g_exceptions); memset(g_sent, 0, sizeof g_sent); };
  s.party = [&](int me) { party(me, (int)sc.size(), sc[(size_t)me], connect, len); };
  s.after = [&] {
    std::string x = vk::stray();
    if (!x.empty()) vh::fail("%s | schedule: %s", x.c_str(), sched::schedule().c_str());
    for (int i = 0; i < s.n; i++) if (!g_given_up[i]) vh::fail("party %d cannot get rid of its network: %s | schedule: %s", i, sched::deadlock_threads().c_str(), sched::schedule().c_str());
    for (auto& f : vk::descriptors()) if (!g_dead[f.group] && f.closed != 1) vh::fail("descriptor %d (%s, party %d) was closed %d times | schedule: %s", f.fd, f.kind.c_str(), f.group, f.closed, sched::schedule().c_str());
    if (sched::deadlocked()) {
      if (!vk::faults_injected()) vh::fail("no progress: %s | schedule: %s", sched::deadlock_threads().c_str(), sched::schedule().c_str());
      vh::count("executions in which a peer of a failed party keeps waiting for a connection");
    }
    for (auto& c : vk::connections()) for (int d = 0; d < 2; d++) {
      int i = d ? c.server_group : c.client_group, j = d ? c.client_group : c.server_group; if (i < 0 || j < 0 || g_dead[i] || (d ? c.s2c_refused : c.c2s_refused)) continue;
      size_t w = d ? c.s2c : c.c2s, want = (i + 1) % s.n == j ? g_sent[i] : 0;
      if (w != want) vh::fail("party %d gave its network up after sending %zu bytes to party %d, of which %zu were handed to the system, which refused none | schedule: %s", i, want, j, w, sched::schedule().c_str());
    }
    int e = 0; for (int x : g_exceptions) e += x;
    if (e) vh::count("executions in which a party gave up after an exception");
  };
  ns::run(s); vh::distinct_case();
}
int main(int argc, char** argv) {
  vh::init(argc, argv); bool th = vh::thorough(), race = race_run_begin != nullptr;
  // scripts of up to len operations, then perhaps a close, perhaps twice
  auto scripts = [](int len, int closes) {
    std::vector<Script> r; for (int l = 0; l <= len; l++) for (vh::Radix x(std::vector<int>((size_t)l, 3)); x.ok(); x.next()) for (int c = 0; c <= closes; c++) { Script s = x.d; s.insert(s.end(), (size_t)c, kClose); r.push_back(s); }
    return r;
  };
  struct F { const char* name; unsigned f; bool eof; };
  const F kinds[] = {{"no faults", 0, false}, {"set-up calls fail", kSetup, false}, {"transfers fail", kIo, false}, {"closing fails", kEnd, false}, {"connections are lost", 0, true}};
  auto go = [&](const std::vector<Script>& sc, const F& f, bool connect, std::vector<int> lazy, size_t cap, sched::Options o, int env) {
    if (!sound(sc)) return;
    std::string l; for (size_t i = 0; i < lazy.size(); i++) if (lazy[i]) l += ", party " + std::to_string(i) + " starts late";
    if (!vh::begin("%s%s, %s, capacity %zu, %s%s, share %d", str(sc).c_str(), connect ? "" : " (never connected)", f.name, cap, ns::policy_name(o.policy), l.c_str(), o.bucket)) return;
    vk::Config k; k.faults = f.f; k.eof = f.eof; k.cap = cap; o.env = f.f || f.eof ? env : 0; play(sc, connect, cap ? 3 : 1, lazy, o, k);
  };
  for (int n = 1; n <= 4; n++) { std::vector<Script> sc((size_t)n); sched::Options o; o.deviations = n < 3 ? 2 : 1; for (int c = 0; c < 3; c++) { for (auto& s : sc) s.assign((size_t)c, kClose); go(sc, kinds[0], false, {}, 0, o, 0); } }
  for (int pol = 0; pol < (race ? 1 : 5); pol++) {
    sched::Options o; o.policy = pol;
    for (auto& s : scripts(th ? 3 : 2, 2)) for (auto& f : kinds) { o.deviations = race ? 1 : 3; go({s}, f, true, {}, 0, o, 2); }
    auto two = scripts(race ? 1 : 2, 1);
    for (auto& a : two) for (auto& b : two) for (auto& f : kinds) {
      bool small = a.size() + b.size() <= 3;
      o.deviations = !race && th && small ? 2 : small || th ? 1 : 0;
      if (!race && !th && pol > 1 && small) o.deviations = 0;
      go({a, b}, f, true, {}, 0, o, small && !race ? 2 : 1);
      if (small && !race) for (int late = 0; late < 2; late++) { std::vector<int> l(2, 0); l[(size_t)late] = 2; o.deviations = th ? 1 : 0; go({a, b}, f, true, l, 0, o, 1); }
      // one direction only, with little room: the sender thread may be blocked when the network is given up
      if (small && std::find(b.begin(), b.end(), kSend) == b.end() && !race) { o.deviations = 1; go({a, b}, f, true, {}, 1, o, 1); go({b, a}, f, true, {}, 1, o, 1); }
    }
    auto one = scripts(1, 1);
    for (auto& a : one) for (auto& b : one) for (auto& c : one) {
      if (race && (a.size() > 1 || b.size() > 1 || c.size() > 1)) continue;
      for (auto& f : kinds) { if (!th && pol > 1) continue; o.deviations = race ? 0 : th ? 1 : f.f || f.eof || pol ? 0 : 1; go({a, b, c}, f, true, {}, 0, o, 1); }
    }
    if (!race) for (int k = 0; k < 4; k++) { std::vector<Script> sc(4, k & 1 ? Script{kSend} : Script{}); if (k & 2) sc[3] = {kSend, kRecv, kClose}; if (k == 2) sc[2] = {kSend}; for (auto& f : kinds) { o.deviations = th ? 1 : 0; go(sc, f, true, {}, 0, o, 1); } }
  }
  vh::finish();
}
