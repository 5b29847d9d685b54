// C13: networks over a simulated kernel. Every byte on the way from i to j has a content fixed by
// (i, j, position); each receive is compared with the bytes that come next.
#include "netsim.h"
#define QUIET __attribute__((no_sanitize("thread")))

struct Op { bool send; int peer; size_t n; };      // peer -1: broadcast
typedef std::vector<std::vector<Op>> Script;        // per party
static size_t g_sent[32][32], g_recv[32][32];
QUIET static unsigned char content(int i, int j, size_t pos) { uint64_t h = vh::mix(vh::mix(77, (uint64_t)(i * 64 + j)), pos); return (unsigned char)(h >> 11); }
QUIET static size_t take(size_t& c, size_t n) { size_t p = c; c += n; return p; }

static void play(ns::Net& net, int me, const std::vector<Op>& ops) {
  for (auto& op : ops) {
    if (op.send && op.peer < 0) {
      // a broadcast carries the same bytes to everybody: content of stream (me, me)
      size_t p = 0; for (int j = 0; j < (int)net.Size(); j++) p = take(g_sent[me][j], op.n);
      std::vector<unsigned char> b(op.n); for (size_t k = 0; k < op.n; k++) b[k] = content(me, 63, p + k);
      net.Broadcast(b.data(), op.n);
      std::fill(b.begin(), b.end(), 0xEE);          // the caller may reuse its buffer
    } else if (op.send) {
      size_t p = take(g_sent[me][op.peer], op.n);
      std::vector<unsigned char> b(op.n); for (size_t k = 0; k < op.n; k++) b[k] = content(me, op.peer, p + k);
      net.SendTo(op.peer, b.data(), op.n);
      std::fill(b.begin(), b.end(), 0xEE);
    } else {
      size_t p = take(g_recv[op.peer][me], op.n);
      std::vector<unsigned char> b(op.n + 8, 0xA5);
      net.RecvFrom(op.peer, b.data(), op.n);
      bool bc = ns::spec()->k.first_fd == 1001;      // scenario of broadcasts
      for (size_t k = 0; k < op.n; k++) {
        unsigned char w = bc ? content(op.peer, 63, p + k) : content(op.peer, me, p + k);
        if (b[k] != w) vh::fail("party %d receives byte %zu of the stream from party %d as %02x, sent was %02x | schedule: %s", me, p + k, op.peer, b[k], w, sched::schedule().c_str());
      }
      for (size_t k = op.n; k < op.n + 8; k++) if (b[k] != 0xA5) vh::fail("party %d: a receive of %zu bytes writes beyond its buffer", me, op.n);
    }
  }
}
static void scenario(const Script& sc, sched::Options o, vk::Config k, bool broadcast = false) {
  ns::Spec s; s.n = (int)sc.size(); s.o = o; s.k = k; s.k.first_fd = broadcast ? 1001 : 1000;
  s.before = [] { memset(g_sent, 0, sizeof g_sent); memset(g_recv, 0, sizeof g_recv); };
  s.party = [&sc](int i) {
    auto net = ns::make(i, (int)sc.size(), ns::spec()->base);
    net->Connect(); ns::ready();
    play(*net, i, sc[(size_t)i]);
    net->Close();
  };
  ns::run(s); vh::distinct_case();
}
static std::vector<std::vector<size_t>> compositions(size_t total, bool empties) {
  std::vector<std::vector<size_t>> r;
  for (unsigned m = 0; m < 1u << (total - 1); m++) {
    std::vector<size_t> c{1}; for (size_t i = 0; i + 1 < total; i++) if (m >> i & 1) c.push_back(1); else c.back()++;
    r.push_back(c);
    if (empties) { std::vector<size_t> e; for (size_t x : c) { e.push_back(0); e.push_back(x); } e.push_back(0); r.push_back(e); }
  }
  return r;
}
static std::string str(const std::vector<size_t>& c) { std::string s; for (size_t x : c) s += (s.empty() ? "" : "+") + std::to_string(x); return s; }
static void push(std::vector<Op>& v, bool send, int peer, const std::vector<size_t>& c) { for (size_t x : c) v.push_back({send, peer, x}); }
// sends before receives, or each receive as soon as enough was sent
static std::vector<Op> eager(int peer, const std::vector<size_t>& s, const std::vector<size_t>& r) {
  std::vector<Op> v; size_t have = 0, got = 0, ri = 0;
  for (size_t x : s) { v.push_back({true, peer, x}); have += x; while (ri < r.size() && got + r[ri] <= have) { v.push_back({false, peer, r[ri]}); got += r[ri++]; } }
  while (ri < r.size()) v.push_back({false, peer, r[ri++]});
  return v;
}
// ---- typed messages
using frn::Field; using frn::Shr;
enum Kind { kFields, kShares, kBytes };
struct Msg { int kind; int n; };
static Field field(int i, int j, int m, int k) { return Field((unsigned long)(vh::mix(vh::mix(5, (uint64_t)(i * 64 + j * 8 + m)), (uint64_t)k) >> 4)); }
static unsigned char byte(int m, int j) { return (unsigned char)(vh::mix((uint64_t)m + 77, (uint64_t)j) >> 13); }
static void typed(const std::vector<Msg>& msgs, int from, int to, sched::Options o, vk::Config k, int n = 4) {
  ns::Spec s; s.n = n; s.o = o; s.k = k;
  s.party = [&](int me) {
    auto net = frn::TcpNetwork::CreateWithLocalParties((unsigned)me, (size_t)n, 20000, false);
    frn::lib::secret_sharing::Replicator<Field> rep((size_t)n, (size_t)(n - 1) / 3);
    net->Connect(); ns::ready();
    auto shr = [&](int m, int j) { std::vector<Field> v; for (size_t q = 0; q < rep.ShareSize(); q++) v.push_back(field(from, to, m, j * 100 + (int)q)); return Shr(v); };
    if (me == from) for (int m = 0; m < (int)msgs.size(); m++) {
      if (msgs[(size_t)m].kind == kFields) { std::vector<Field> v; for (int j = 0; j < msgs[(size_t)m].n; j++) v.push_back(field(from, to, m, j)); net->Send((unsigned)to, v); }
      else if (msgs[(size_t)m].kind == kShares) { std::vector<Shr> v; for (int j = 0; j < msgs[(size_t)m].n; j++) v.push_back(shr(m, j)); net->SendShares((unsigned)to, v); }
      else { std::vector<unsigned char> v; for (int j = 0; j < msgs[(size_t)m].n; j++) v.push_back(byte(m, j)); net->SendBytes((unsigned)to, v); }
    }
    if (me == to) for (int m = 0; m < (int)msgs.size(); m++) {
      int c = msgs[(size_t)m].n;
      if (msgs[(size_t)m].kind == kFields) {
        auto v = net->Recv((unsigned)from, (size_t)c); if ((int)v.size() != c) vh::fail("receiving %d field elements gives %zu", c, v.size());
        for (int j = 0; j < c; j++) if (v[(size_t)j] != field(from, to, m, j)) vh::fail("message %d: field element %d differs from the one sent | schedule: %s", m, j, sched::schedule().c_str());
      } else if (msgs[(size_t)m].kind == kShares) {
        auto v = net->RecvShares((unsigned)from, (size_t)c); if ((int)v.size() != c) vh::fail("receiving %d shares gives %zu", c, v.size());
        for (int j = 0; j < c; j++) { auto w = shr(m, j); auto a = static_cast<std::vector<Field>>(v[(size_t)j]), b = static_cast<std::vector<Field>>(w); if (a != b) vh::fail("message %d: share %d differs from the one sent | schedule: %s", m, j, sched::schedule().c_str()); }
      } else {
        auto v = net->RecvBytes((unsigned)from, (size_t)c); if ((int)v.size() != c) vh::fail("receiving %d bytes gives %zu", c, v.size());
        for (int j = 0; j < c; j++) if (v[(size_t)j] != byte(m, j)) vh::fail("message %d: byte %d differs from the one sent | schedule: %s", m, j, sched::schedule().c_str());
      }
    }
    net->Close();
  };
  ns::run(s); vh::distinct_case();
}

int main(int argc, char** argv) {
  vh::init(argc, argv); bool th = vh::thorough();
  const size_t L = th ? 5 : 4;
  // a party and itself: all interleavings of caller and sender thread
  if (vh::is_set("local")) for (int e = 0; e < 2; e++) for (auto& s : compositions(L, true)) for (auto& r : compositions(L, true)) {
    if (!vh::begin("to itself: sent %s, received %s%s", str(s).c_str(), str(r).c_str(), e ? ", interleaved" : "")) continue;
    std::vector<Op> ops; if (e) ops = eager(0, s, r); else { push(ops, true, 0, s); push(ops, false, 0, r); }
    sched::Options o; o.deviations = th ? 4 : 3; scenario({ops}, o, {});
  }
  // two parties
  if (vh::is_set("pair")) for (int cap : {0, 3}) for (auto& s : compositions(L, true)) for (auto& r : compositions(L, false)) for (int pol = 0; pol < (th ? 5 : 2); pol++) {
    if (!vh::begin("party 0 to 1: sent %s, received %s, capacity %d, %s", str(s).c_str(), str(r).c_str(), cap, ns::policy_name(pol))) continue;
    Script sc(2); push(sc[0], true, 1, s); push(sc[1], false, 0, r);
    sched::Options o; o.policy = pol; o.deviations = 2; o.env = th ? 3 : 2; vk::Config k; k.cap = (size_t)cap; k.short_io = true; scenario(sc, o, k);
  }
  if (vh::is_set("pair")) for (auto& s : compositions(3, true)) for (auto& r : compositions(3, false)) for (int pol = 0; pol < 5; pol++) {
    if (!vh::begin("both directions and itself: sent %s, received %s, %s", str(s).c_str(), str(r).c_str(), ns::policy_name(pol))) continue;
    Script sc(2); for (int i = 0; i < 2; i++) { push(sc[i], true, 1 - i, s); push(sc[i], true, i, r); push(sc[i], false, 1 - i, r); push(sc[i], false, i, s); }
    sched::Options o; o.policy = pol; o.deviations = th ? 2 : 1; o.env = 1; vk::Config k; k.short_io = true; scenario(sc, o, k);
  }
  // three (four) parties, everybody to everybody, and broadcasts
  if (vh::is_set("many")) for (int n = 3; n <= (th ? 5 : 4); n++) for (int bc = 0; bc < 2; bc++) for (int cap : {0, 2}) for (int pol = 0; pol < 5; pol++) for (int bu = 0; bu < (n == 3 ? 1 : 2); bu++) {
    if (!vh::begin("%s among %d parties, capacity %d, %s, share %d", bc ? "broadcasts" : "messages", n, cap, ns::policy_name(pol), bu)) continue;
    Script sc((size_t)n);
    for (int i = 0; i < n; i++) {
      if (bc) { sc[(size_t)i] = {{true, -1, 2}, {true, -1, 0}, {true, -1, 1}}; for (int j = n; j-- > 0;) { sc[(size_t)i].push_back({false, j, 1}); sc[(size_t)i].push_back({false, j, 2}); } }
      else { for (int j = 0; j < n; j++) { int to = (i + j) % n; sc[(size_t)i].push_back({true, to, (size_t)(1 + (i + to) % 3)}); if (j % 2) sc[(size_t)i].push_back({true, to, 2}); }
             for (int j = 0; j < n; j++) { int from = (i + n - j) % n; size_t m = (size_t)(1 + (i + from) % 3) + (((i - from + n) % n) % 2 ? 2 : 0); sc[(size_t)i].push_back({false, from, m - 1}); sc[(size_t)i].push_back({false, from, 1}); } }
    }
    sched::Options o; o.policy = pol; o.deviations = n == 3 && th ? 2 : 1; o.env = 1; o.bucket = bu; o.buckets = n == 3 ? 1 : 2; vk::Config k; k.cap = (size_t)cap; k.short_io = n == 3; scenario(sc, o, k, bc);
  }
  // typed messages over the protocol network: all histories
  if (vh::is_set("typed")) {
    std::vector<Msg> al; for (int k = 0; k < 3; k++) for (int c : {0, 1, 2}) al.push_back({k, c}); al.push_back({kBytes, 17});
    for (int len = 1; len <= (th ? 3 : 2); len++) for (vh::Radix r(std::vector<int>((size_t)len, (int)al.size())); r.ok(); r.next()) for (auto ft : std::vector<std::pair<int, int>>{{0, 1}, {2, 1}, {3, 3}}) {
      std::string d; std::vector<Msg> ms; for (int x : r.d) { ms.push_back(al[(size_t)x]); d += " " + std::to_string(al[(size_t)x].n) + (al[(size_t)x].kind == kFields ? " elements" : al[(size_t)x].kind == kShares ? " shares" : " bytes"); }
      if (!vh::begin("%d to %d:%s", ft.first, ft.second, d.c_str())) continue;
      sched::Options o; o.deviations = th || len == 1 ? 1 : 0; o.env = 1; o.policy = (int)(vh::ctx().ordinal % 5); vk::Config k; k.short_io = true; k.cap = vh::ctx().ordinal % 2 ? 5 : 0; typed(ms, ft.first, ft.second, o, k);
    }
  }
  // large messages
  if (vh::is_set("typed")) for (size_t size : {4095, 4096, 65536, 70001, 1048577}) for (int cap : {0, 1000, 65536}) for (int pol = 0; pol < 5; pol++) {
    if (!vh::begin("%zu bytes at once, capacity %d, %s", size, cap, ns::policy_name(pol))) continue;
    Script sc(2); push(sc[0], true, 1, {size}); push(sc[0], true, 0, {size, 1}); push(sc[0], false, 1, {7, size}); push(sc[0], false, 0, {1, size});
    push(sc[1], true, 0, {size, 7}); push(sc[1], false, 0, {size - 9, 9});
    sched::Options o; o.policy = pol; o.deviations = 0; vk::Config k; k.cap = (size_t)cap; scenario(sc, o, k);
  }
  if (vh::is_set("typed")) for (long z : vh::sizes(6, th ? 600000 : 140000)) for (int cap : {0, 4096}) {
    size_t size = (size_t)z; if (!vh::begin("messages of %zu bytes, capacity %d", size, cap)) continue;
    Script sc(2); push(sc[0], true, 1, {size, 3}); push(sc[0], true, 0, {size}); push(sc[0], false, 1, {size, 2}); push(sc[0], false, 0, {size - 2, 2});
    push(sc[1], true, 0, {1, size, 1}); push(sc[1], false, 0, {3, size});
    sched::Options o; o.policy = (int)(vh::ctx().ordinal % 5); o.deviations = 0; o.steps = 2000000; vk::Config k; k.cap = (size_t)cap; scenario(sc, o, k);
  }
  // many messages queued before the first is received, and in lock step
  if (vh::is_set("typed")) for (int count : {300, 3000}) for (int cap : {0, 7}) for (int pol = 0; pol < 5; pol++) for (int e = 0; e < 2; e++) {
    if (!vh::begin("%d messages%s, capacity %d, %s", count, e ? " answered one by one" : "", cap, ns::policy_name(pol))) continue;
    Script sc(2); std::vector<size_t> z; for (int k = 0; k < count; k++) z.push_back((size_t)(1 + k % 3));
    if (e) for (size_t x : z) { sc[0].push_back({true, 1, x}); sc[1].push_back({false, 0, x}); sc[1].push_back({true, 0, 1}); sc[0].push_back({false, 1, 1}); sc[0].push_back({true, 0, x}); sc[0].push_back({false, 0, x}); }
    else { push(sc[0], true, 1, z); push(sc[0], true, 0, z); push(sc[0], false, 0, z); push(sc[1], false, 0, z); }
    sched::Options o; o.policy = pol; o.deviations = 0; o.steps = 2000000; vk::Config k; k.cap = (size_t)cap; scenario(sc, o, k);
  }
  if (vh::is_set("typed")) for (int n : {6, 9, 12}) for (int cap : {0, 2}) for (int pol = 0; pol < 5; pol++) {
    if (!vh::begin("broadcasts among %d parties, capacity %d, %s", n, cap, ns::policy_name(pol))) continue;
    Script sc((size_t)n); for (int i = 0; i < n; i++) { sc[(size_t)i] = {{true, -1, 3}, {true, -1, 1}}; for (int j = 0; j < n; j++) sc[(size_t)i].push_back({false, (i + j) % n, 4}); }
    sched::Options o; o.policy = pol; o.deviations = 0; o.steps = 2000000; vk::Config k; k.cap = (size_t)cap; scenario(sc, o, k, true);
  }
  if (vh::is_set("typed")) for (auto& ms : std::vector<std::vector<Msg>>{{{kFields, 1000}, {kFields, 3}}, {{kFields, 8193}, {kBytes, 5}}, {{kFields, 65537}, {kShares, 2}}, {{kShares, 300}, {kFields, 257}}, {{kShares, 2731}, {kShares, 1}}, {{kShares, 22000}, {kFields, 1}}, {{kBytes, 70000}, {kBytes, 9}}, {{kBytes, 300}, {kShares, 257}}}) for (int n : {4, 7}) for (int cap : {0, 4096}) {
    if (!vh::begin("to party 1 of %d, capacity %d: %d and %d of kinds %d and %d", n, cap, ms[0].n, ms[1].n, ms[0].kind, ms[1].kind)) continue;
    sched::Options o; o.deviations = 0; o.steps = 5000000; o.policy = (int)(vh::ctx().ordinal % 5); vk::Config k; k.cap = (size_t)cap; typed(ms, n - 1, 1, o, k, n); 
  }
  if (vh::is_set("typed")) for (long z : vh::sizes(3, th ? 70000 : 20500)) for (int kind : {(int)kFields, (int)kShares}) {
    int c = (int)z; if (kind == kShares && c > 5000) continue;
    if (!vh::begin("to party 2 of 4: %d of kind %d, then as many again and 2", c, kind)) continue;
    std::vector<Msg> ms = {{kind, c}, {kind, c}, {kind, 2}}; for (auto& m : ms) m.kind = (decltype(m.kind))kind;
    sched::Options o; o.deviations = 0; o.steps = 5000000; o.policy = (int)(vh::ctx().ordinal % 5); vk::Config k; k.cap = c % 2 ? 4096 : 0; typed(ms, 1, 2, o, k, 4);
  }
  vh::finish();
}
