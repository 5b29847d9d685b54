// C20: all short histories of sends and receives over the real protocol network; the communication
// summary printed after every operation is parsed and compared with a count kept beside it.
#include <iostream>
#include <sstream>
#include "netsim.h"
#include "netprog.h"
using namespace prog;
enum What { kFields, kShareList, kRaw, kOddShares };
struct Op { bool send; int what, peer; size_t n; };
typedef std::map<int, std::pair<uint64_t, uint64_t>> Table;      // peer -> bytes sent, received

static std::string printed(const frn::TcpNetwork& net) {
  std::ostringstream ss; auto* old = std::cout.rdbuf(ss.rdbuf()); net.PrintCommunicationSummary(); std::cout.flush(); std::cout.rdbuf(old); return ss.str();
}
// slack: bytes that arrived for receives that failed and may or may not be counted
static void check(const std::string& text, int id, int n, const Table& want, const std::string& when, const Table& slack = {}) {
  std::istringstream in(text); std::string line; Table got; bool head = false;
  while (std::getline(in, line)) {
    unsigned a; unsigned long long x, y; int end = 0;
    if (line.empty()) continue;
    if (sscanf(line.c_str(), "communication summary for %u:%n", &a, &end) == 1 && end) { if ((int)a != id || head) vh::fail("%s: the summary of party %d is headed \"%s\"", when.c_str(), id, line.c_str()); head = true; continue; }
    std::pair<uint64_t, uint64_t> v;
    if (sscanf(line.c_str(), "sent/received to/from %u: %llu/%llu bytes%n", &a, &x, &y, &end) == 3 && end) v = {x, y};
    else if (sscanf(line.c_str(), "sent to %u: %llu bytes%n", &a, &x, &end) == 2 && end) v = {x, 0};
    else if (sscanf(line.c_str(), "received from %u: %llu bytes%n", &a, &y, &end) == 2 && end) v = {0, y};
    else vh::fail("%s: the summary of party %d has the line \"%s\"", when.c_str(), id, line.c_str());
    if (got.count((int)a)) vh::fail("%s: the summary of party %d has two lines for party %u", when.c_str(), id, a);
    if ((size_t)end != line.size()) vh::fail("%s: the summary of party %d has the line \"%s\"", when.c_str(), id, line.c_str());
    got[(int)a] = v;
  }
  if (!head) vh::fail("%s: the summary of party %d has no heading", when.c_str(), id);
  for (int j = 0; j < n; j++) {
    std::pair<uint64_t, uint64_t> w; auto it = want.find(j); if (it != want.end()) w = it->second;
    auto sl = slack.find(j);
    if (sl != slack.end() && got.count(j) && got[j].second > w.second && got[j].second <= w.second + sl->second.second) w.second = got[j].second;
    bool any = w.first || w.second;
    if (any != (got.count(j) > 0)) vh::fail("%s: party %d exchanged %llu/%llu bytes with party %d, but the summary has %s line for it", when.c_str(), id, (unsigned long long)w.first, (unsigned long long)w.second, j, any ? "no" : "a");
    if (any && got[j] != w) vh::fail("%s: party %d sent %llu and received %llu bytes to/from party %d, the summary says %llu and %llu", when.c_str(), id, (unsigned long long)w.first, (unsigned long long)w.second, j, (unsigned long long)got[j].first, (unsigned long long)got[j].second);
    got.erase(j);
  }
  if (!got.empty()) vh::fail("%s: the summary of party %d has a line for party %d of %d", when.c_str(), id, got.begin()->first, n);
  vh::evals();
}
static size_t bytes(const Op& o, size_t share) { switch (o.what) { case kFields: return 8 * o.n; case kShareList: return 8 * share * o.n; case kRaw: return o.n; default: return 8 * (o.n + 1) * o.n; } }
static std::string show(const std::vector<Op>& h) {
  static const char* k[] = {"elements", "shares", "bytes", "shares of another size"}; std::string s;
  for (auto& o : h) s += std::string(s.empty() ? "" : ", ") + (o.send ? "send " : "receive ") + std::to_string(o.n) + " " + k[o.what] + (o.send ? " to " : " from ") + std::to_string(o.peer);
  return s;
}
static void run_op(frn::TcpNetwork& net, const Op& o, bool send, int peer, size_t share) {
  unsigned p = (unsigned)peer;
  if (o.what == kRaw) { if (send) net.SendBytes(p, std::vector<unsigned char>(o.n, 5)); else net.RecvBytes(p, o.n); }
  else if (o.what == kFields) { if (send) net.Send(p, std::vector<Field>(o.n, Field(7))); else net.Recv(p, o.n); }
  else if (o.what == kShareList) { if (send) net.SendShares(p, std::vector<Shr>(o.n, Shr(share, Field(3)))); else net.RecvShares(p, o.n); }
  else { if (send) net.SendShares(p, std::vector<Shr>(o.n, Shr(o.n + 1, Field(3)))); else net.Recv(p, o.n * (o.n + 1)); }
}
static void history(int n, int actor, const std::vector<Op>& h, bool print_each) {
  size_t share = (size_t)model::placement(n, (n - 1) / 3).share_size();
  ns::Spec s; s.n = n; s.scope = ns::kAll; s.o.deviations = 0; s.o.policy = (int)((h.size() + (size_t)actor) % 5); s.o.steps = 3000000;
  s.party = [&](int me) {
    auto net = frn::TcpNetwork::CreateWithLocalParties((unsigned)me, (size_t)n, 20000, false);
    net->Connect();
    Table t; std::vector<Op> done;
    if (me == actor) {
      if (print_each) check(printed(*net), me, n, t, "at the start");
      for (auto& o : h) {
        vh::progress(); run_op(*net, o, o.send, o.peer, share); (o.send ? t[o.peer].first : t[o.peer].second) += bytes(o, share); done.push_back(o);
        if (print_each) check(printed(*net), me, n, t, "after [" + show(done) + "]");
      }
    } else for (auto& o : h) if (o.peer == me) { run_op(*net, o, !o.send, actor, share); (o.send ? t[actor].second : t[actor].first) += bytes(o, share); }
    check(printed(*net), me, n, t, "at the end of [" + show(h) + "] of party " + std::to_string(actor));
    net->Close();
  };
  ns::run(s);
}
// a peer sends some bytes and closes; a receive asks for more than that and fails: what did not arrive is not reported as
// received, neither then nor after further attempts
static void cut_short(int n, int actor, int peer, size_t before, size_t rest, int what, size_t asked, bool also_sends) {
  size_t share = (size_t)model::placement(n, (n - 1) / 3).share_size();
  ns::Spec s; s.n = n; s.scope = ns::kAll; s.o.deviations = 0; s.o.policy = (int)((before + rest + (size_t)what) % 5); s.o.steps = 3000000;
  s.party = [&](int me) {
    auto net = frn::TcpNetwork::CreateWithLocalParties((unsigned)me, (size_t)n, 20000, false);
    net->Connect(); Table t, slack;
    if (me == peer) {
      if (before) { net->SendBytes((unsigned)actor, std::vector<unsigned char>(before, 1)); t[actor].first += before; }
      if (rest) { net->SendBytes((unsigned)actor, std::vector<unsigned char>(rest, 1)); t[actor].first += rest; }
    } else if (me == actor) {
      if (also_sends) { net->SendBytes((unsigned)peer, std::vector<unsigned char>(3, 1)); t[peer].first += 3; }
      if (before) { net->RecvBytes((unsigned)peer, before); t[peer].second += before; }
      slack[peer].second = rest;
      for (int k = 0; k < 3; k++) {
        Op o{false, what, peer, asked}; bool threw = false;
        try { run_op(*net, o, false, peer, share); } catch (const std::exception&) { threw = true; }
        VCHECK(threw, "a receive of %zu bytes returned although %zu had been sent", bytes(o, share), rest);
        check(printed(*net), me, n, t, "after receive " + std::to_string(k + 1) + " that failed", slack);
      }
    }
    if (me != actor) check(printed(*net), me, n, t, "at the end");
    try { net->Close(); } catch (const std::exception&) { }
  };
  ns::run(s);
}
// histories that never wait for data a party has not sent itself
static bool sound(const std::vector<Op>& h, int actor, size_t share) {
  long self = 0; for (auto& o : h) if (o.peer == actor) { self += o.send ? (long)bytes(o, share) : -(long)bytes(o, share); if (self < 0) return false; }
  return true;
}
int main(int argc, char** argv) {
  vh::init(argc, argv); mem::silence(); bool th = vh::thorough();
  auto alphabet = [&](int n, int actor, bool small) {
    std::vector<Op> al; std::vector<int> peers = {(actor + 1) % n, actor, (actor + n - 1) % n};
    for (int p : peers) for (int s = 1; s >= 0; s--) for (int k = 0; k < (s ? 4 : 3); k++) for (size_t c : {1, 2, 0}) { if (small && (c == 0 || k == kOddShares || p == peers[2])) continue; if (k == kOddShares && c == 0) continue; al.push_back({s == 1, k, p, c}); }
    return al;
  };
  // large amounts, also beyond 32 bits
  for (size_t c : [] { std::vector<size_t> v; for (long x : vh::sizes(3, 140000)) v.push_back((size_t)x); v.push_back(300000); return v; }()) for (int k = 0; k < 3; k++) for (int peer : {1, 2}) {
    if (!vh::begin("%zu %s, to and from party %d", c, k == 0 ? "elements" : k == 1 ? "shares" : "bytes", peer)) continue;
    size_t m = k == 1 ? c / 100 + 1 : c; history(4, 1, {{true, k, peer, m}, {false, k, peer, m}, {true, k, peer, m}, {false, kRaw, peer, 1}}, true); vh::distinct_case();
  }
  if (vh::begin("more than 2^32 bytes from a party to itself")) {
    std::vector<Op> h; for (int i = 0; i < 65; i++) { h.push_back({true, kRaw, 2, (size_t)1 << 26}); h.push_back({false, kRaw, 2, (size_t)1 << 26}); }
    h.push_back({true, kRaw, 2, 5}); history(4, 2, h, false); vh::distinct_case();
  }
  for (int n : {4, 5}) for (int actor = 0; actor < n; actor++) for (int peer = 0; peer < n; peer++) for (size_t before : {0, 5}) for (size_t rest : {0, 1, 7, 8, 30}) for (int what = 0; what < 3; what++) for (int also = 0; also < 2; also++) {
    size_t asked = what == kRaw ? rest + 1 : what == kFields ? rest / 8 + 1 : 2;
    if (actor == peer || (n > 4 && !th && actor && peer)) continue;
    if (!vh::begin("n=%d: party %d sends %zu and %zu bytes and closes, party %d receives more (%d, %d)", n, peer, before, rest, actor, what, also)) continue;
    cut_short(n, actor, peer, before, rest, what, asked, also); vh::distinct_case();
  }
  for (int n : {4, 7}) for (int actor : {0, 1, n - 1}) {
    size_t share = (size_t)model::placement(n, (n - 1) / 3).share_size(); auto al = alphabet(n, actor, false);
    for (auto& a : al) {
      if (n > 4 && !th && actor) continue;
      if (!vh::begin("n=%d, histories of party %d beginning with [%s]", n, actor, show({a}).c_str())) continue;
      auto go = [&](std::vector<Op> h) { if (!sound(h, actor, share)) return; history(n, actor, h, true); vh::distinct(vh::hash_str(std::to_string(n) + "/" + std::to_string(actor) + show(h))); vh::progress(); };
      go({a});
      for (auto& b : al) { go({a, b}); if (n == 4 && (actor == 1 || th)) for (auto& c : al) go({a, b, c}); }
      if (th && n == 4 && actor == 1) { auto sm = alphabet(n, actor, true); for (auto& b : sm) for (auto& c : sm) for (auto& d : sm) go({a, b, c, d}); }
    }
  }
  // whole protocol runs: each party's summary against the messages of an execution over the in-memory network
  for (int n = 4; n <= (th ? 10 : 8); n++) for (int what = 0; what < 4; what++) for (int pol = 0; pol < 2; pol++) {
    Plan p; p.n = n; p.d = (n - 1) / 3; p.phases = what == 0 ? kInput : what == 1 ? kMult : what == 2 ? kMult | kCheck : 7;
    if (what != 1 && what != 2) p.owners = {0, n - 1, n - 1}; if (what) p.batches = {2, 0, 1};
    if (!vh::begin("summaries after %s, %s", str(p).c_str(), ns::policy_name(pol))) continue;
    std::vector<Table> t((size_t)n);
    { mem::World w(n); std::string e = w.run([&](int id) { program(mem::net(id, n, p.d, w), p, manipulators(n, p.d)[(size_t)id]); }); if (!e.empty()) vh::fail("sequential execution: %s", e.c_str());
      for (auto& m : w.log) { uint64_t b = m.v.size() * (m.kind == mem::kBytes ? 1 : 8); t[(size_t)m.from][m.to].first += b; t[(size_t)m.to][m.from].second += b; } }
    ns::Spec s; s.n = n; s.scope = ns::kAll; s.o.deviations = 0; s.o.policy = pol;
    s.party = [&](int me) {
      auto net = frn::TcpNetwork::CreateWithLocalParties((unsigned)me, (size_t)n, 20000, false);
      net->Connect(); auto man = manipulators(n, p.d)[(size_t)me]; program(net, p, man);
      check(printed(*net), me, n, t[(size_t)me], "after the protocols"); net->Close();
    };
    ns::run(s); vh::distinct_case();
  }
  vh::finish();
}
