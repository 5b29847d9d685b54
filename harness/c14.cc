// C14: closing right after sending, on the real network stack under the controlled scheduler.
#include "netsim.h"
#define QUIET __attribute__((no_sanitize("thread")))

struct Plan { int n; std::vector<std::vector<std::vector<size_t>>> send; bool read_first, destroy_last; const char* name; };   // send[i][j]: message sizes
static unsigned char content(int i, int j, size_t pos) { return (unsigned char)(vh::mix((uint64_t)(i * 8 + j) + 3, pos) >> 9); }
static void sends(ns::Net& net, int me, const Plan& p) {
  for (int j = 0; j < p.n; j++) { size_t pos = 0; for (size_t s : p.send[(size_t)me][(size_t)j]) { std::vector<unsigned char> b(s); for (auto& c : b) c = content(me, j, pos++); net.SendTo(j, b.data(), s); } }
}
static void recvs(ns::Net& net, int me, const Plan& p) {
  for (int j = 0; j < p.n; j++) {
    size_t tot = 0; for (size_t s : p.send[(size_t)j][(size_t)me]) tot += s;
    std::vector<unsigned char> b(tot); if (tot) net.RecvFrom(j, b.data(), tot);
    for (size_t k = 0; k < tot; k++) if (b[k] != content(j, me, k)) vh::fail("byte %zu from party %d arrives at party %d changed | schedule: %s", k, j, me, sched::schedule().c_str());
  }
}
static void play(const Plan& p, sched::Options o, size_t cap) {
  ns::Spec s; s.n = p.n; s.o = o; s.k.cap = cap;
  s.party = [&p](int me) {
    auto net = ns::make(me, p.n, 20000);
    net->Connect(); ns::ready();
    sends(*net, me, p); recvs(*net, me, p);
    net->Close();
    if (int k = sched::live_in_group(me)) vh::fail("party %d: close returned while %d sender threads are still running | schedule: %s", me, k, sched::schedule().c_str());
    net.reset();
  };
  s.after = [] { std::string x = vk::stray(); if (!x.empty()) vh::fail("%s | schedule: %s", x.c_str(), sched::schedule().c_str()); };
  auto st = ns::run(s); vh::distinct_case(); if (o.dpor) vh::maximum("executions of a reduced exploration", st.runs);
}
// one channel between two controlled threads, nothing else: every interleaving
static void channel(const std::vector<size_t>& sizes, const std::vector<size_t>& reply, size_t cap, sched::Options o) {
  using namespace frn::lib::net;
  ns::Spec s; s.n = 2; s.o = o; s.k.cap = cap; static int up; static int socks[2];
  s.before = [] { up = 0; };
  s.party = [&](int me) {
    auto sys = std::make_shared<SystemInterface>();
    std::unique_ptr<Connector> c;
    if (me == 0) c = std::make_unique<TCPServerConnector>(sys, 20001); else c = std::make_unique<TCPClientConnector>(sys, 20001, "127.0.0.1");
    AsyncSenderChannel ch(c);
    ch.Open(); ns::ready();
    const auto& mine = me ? reply : sizes; const auto& theirs = me ? sizes : reply;
    size_t pos = 0; for (size_t z : mine) { std::vector<unsigned char> b(z); for (auto& x : b) x = content(me, 1 - me, pos++); ch.Send(b.data(), z); }
    size_t tot = 0; for (size_t z : theirs) tot += z;
    std::vector<unsigned char> b(tot); if (tot) ch.Recv(b.data(), tot);
    for (size_t k = 0; k < tot; k++) if (b[k] != content(1 - me, me, k)) vh::fail("byte %zu arrives changed | schedule: %s", k, sched::schedule().c_str());
    ch.Close();
    if (int k = sched::live_in_group(me)) vh::fail("close returned while %d sender threads are still running | schedule: %s", k, sched::schedule().c_str());
  };
  s.after = [] { std::string x = vk::stray(); if (!x.empty()) vh::fail("%s | schedule: %s", x.c_str(), sched::schedule().c_str()); };
  auto st = ns::run(s); vh::distinct_case(); vh::maximum(o.dpor ? "executions of a reduced exploration" : "executions of a bounded exploration", st.runs); vh::count("redundant executions", st.redundant); (void)socks;
}
static std::string str(const std::vector<size_t>& c) { std::string s; for (size_t x : c) s += (s.empty() ? "" : "+") + std::to_string(x); return s.empty() ? "nothing" : s; }

int main(int argc, char** argv) {
  vh::init(argc, argv); bool th = vh::thorough();
  std::vector<std::vector<size_t>> msgs = {{}, {1}, {2}, {0}, {1, 1}, {2, 0, 1}, {1, 2, 3}};
  if (vh::is_set("all")) for (auto& a : msgs) for (auto& b : msgs) for (size_t cap : {(size_t)0, (size_t)1, (size_t)2}) {
    size_t na = a.size() + b.size(); if (na > (th ? 5 : 3)) continue;
    if (!vh::begin("one channel, all interleavings: %s one way, %s back, capacity %zu", str(a).c_str(), str(b).c_str(), cap)) continue;
    sched::Options o; o.dpor = true; channel(a, b, cap, o);
  }
  if (vh::is_set("bounded")) for (auto& a : msgs) for (auto& b : msgs) for (size_t cap : {(size_t)0, (size_t)1, (size_t)2}) for (int pol = 0; pol < (th ? 5 : 3); pol++) {
    if (!vh::begin("one channel: %s one way, %s back, capacity %zu, %s", str(a).c_str(), str(b).c_str(), cap, ns::policy_name(pol))) continue;
    sched::Options o; o.policy = pol; o.deviations = th ? 4 : 2; channel(a, b, cap, o);
  }
  // queues of every length up to a bound and messages of every size around round ones, closed while they wait
  if (vh::is_set("bounded")) for (long k : vh::sizes(3, th ? 20500 : 5200)) for (size_t cap : {(size_t)0, (size_t)3}) for (int pol = 0; pol < 5; pol++) {
    if (k > 300 && pol % 2) continue;
    if (!vh::begin("one channel: %ld messages queued before closing, 2 back, capacity %zu, %s", k, cap, ns::policy_name(pol))) continue;
    sched::Options o; o.policy = pol; o.deviations = 0; o.steps = 2000000; std::vector<size_t> v; for (long i = 0; i < k; i++) v.push_back((size_t)(1 + i % 2)); channel(v, {1, 1}, cap, o);
  }
  if (vh::is_set("bounded")) for (long k : vh::sizes(3, th ? 600000 : 140000)) for (size_t cap : {(size_t)0, (size_t)1000}) {
    if (!vh::begin("one channel: %ld bytes and 5 more queued before closing, %ld back, capacity %zu", k, k - 1, cap)) continue;
    sched::Options o; o.policy = (int)(vh::ctx().ordinal % 5); o.deviations = 0; o.steps = 2000000; channel({(size_t)k, 5}, {(size_t)k - 1}, cap, o);
  }
  if (vh::is_set("bounded") || vh::is_set("networks")) for (int n = 1; n <= 4; n++) for (int pat = 0; pat < 4; pat++) for (size_t cap : {(size_t)0, (size_t)1}) for (int pol = 0; pol < 5; pol++) for (int bu = 0; bu < (n <= 2 ? 1 : 4); bu++) {
    static const char* pn[] = {"everybody to everybody", "only upwards", "only downwards", "nothing"};
    if (!vh::begin("%d parties, %s, capacity %zu, %s, share %d", n, pn[pat], cap, ns::policy_name(pol), bu)) continue;
    Plan p{n, {}, true, false, pn[pat]}; p.send.assign((size_t)n, std::vector<std::vector<size_t>>((size_t)n));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (pat == 0 || (pat == 1 && i <= j) || (pat == 2 && i >= j)) p.send[(size_t)i][(size_t)j] = (i + j) % 2 ? std::vector<size_t>{2, 1} : std::vector<size_t>{1};
    sched::Options o; o.policy = pol; bool race = race_run_begin != nullptr; o.deviations = race ? 1 : n <= 2 ? 2 : n == 3 ? (th ? 2 : 1) : 1; if (n == 1 && !race) o.deviations = 4;
    o.bucket = bu; o.buckets = n <= 2 ? 1 : 4;
    play(p, o, cap);
  }
  vh::finish();
}
