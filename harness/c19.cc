// C19: all sequences of configuration calls. After every prefix the network is built; what building
// must do follows from a model of the settings in force, and a network that is built is connected to
// reference peers in the simulated kernel, which tells its ports and the addresses it dials.
#include <sys/stat.h>
#include <fstream>
#include "frn/lib/logging.h"
#include "netsim.h"
typedef ns::Net::Builder Builder;
enum Kind { kId, kSize, kType, kPort, kFile, kLocal, kLogger, kBuild };
struct Call { Kind k; long v; const char* name; };
struct File { const char* name; std::vector<std::string> lines; bool final_newline; };
static const std::vector<File> kFiles = {
  {"two", {"10.1.0.1", "10.1.0.2"}, true}, {"three", {"10.2.0.1", "10.2.0.2", "10.2.0.3"}, true}, {"three_b", {"127.0.0.9", "192.168.1.1", "8.8.4.4"}, false},
  {"empty", {}, false}, {"missing", {}, false}, {"bad", {"not-an-address", "10.3.0.2", "10.3.0.3"}, true}, {"four", {"10.4.0.1", "10.4.0.2", "10.4.0.3", "10.4.0.4"}, true}, {"one", {"10.5.0.1"}, true}};
static std::string g_dir;
struct Model { long id = -1, size = -1, port = -1; int type = -1, file = -1; bool local = false; };
static bool valid_address(const std::string& s) { unsigned a, b, c, d; char x; return sscanf(s.c_str(), "%u.%u.%u.%u%c", &a, &b, &c, &d, &x) == 4 && a < 256 && b < 256 && c < 256 && d < 256; }
static uint32_t address(const std::string& s) { unsigned a = 0, b = 0, c = 0, d = 0; sscanf(s.c_str(), "%u.%u.%u.%u", &a, &b, &c, &d); return a << 24 | b << 16 | c << 8 | d; }
enum Must { kAccept, kReject, kEither };

static Must verdict(const Model& m, const Call& c) {       // of a configuration call
  switch (c.k) {
    case kId: return c.v < 0 || (m.size >= 0 && c.v >= m.size) ? kReject : kAccept;
    case kSize: return m.id >= 0 && m.id >= c.v ? kReject : c.v == 0 ? kEither : kAccept;
    case kPort: return c.v >= 1025 && c.v <= 65535 ? kAccept : kEither;      // refused at once or when building
    case kFile: { auto& f = kFiles[(size_t)c.v]; if (f.lines.empty()) return kEither; for (auto& l : f.lines) if (!valid_address(l)) return kEither; return m.size >= 0 && (long)f.lines.size() != m.size ? kEither : kAccept; }
    default: return kAccept;
  }
}
static void accept(Model& m, const Call& c) {
  switch (c.k) { case kId: m.id = c.v; break; case kSize: m.size = c.v; break; case kType: m.type = (int)c.v; break; case kPort: m.port = c.v; break; case kFile: m.file = (int)c.v; break; case kLocal: m.local = true; break; default: break; }
}
static Must verdict(const Model& m) {                        // of building
  if (m.id < 0 || m.size < 0 || m.type != 0 || m.id >= m.size) return kReject;
  if (m.port != -1 && (m.port < 1024 || m.port > 65535)) return kReject;
  bool odd = false;
  if (!m.local) {
    if (m.file < 0) return kReject;
    auto& f = kFiles[(size_t)m.file]; if ((long)f.lines.size() != m.size) return kReject;
    for (long j = 0; j < m.size; j++) if (!valid_address(f.lines[(size_t)j])) { if (j < m.id) return kReject; odd = true; }   // those above are never dialled
  } else if (m.file >= 0 && (long)kFiles[(size_t)m.file].lines.size() != m.size) odd = true;
  long base = m.port < 0 ? ns::Net::kBasePort : m.port;
  if (m.size > 1) { if (base >= 65535) return kReject; if (base + m.size * m.size - 1 > 65535) odd = true; }
  return odd ? kEither : kAccept;
}
static void call(Builder& b, const Call& c) {
  switch (c.k) {
    case kId: b.LocalPeerId((int)c.v); break;
    case kSize: b.Size((size_t)c.v); break;
    case kType: b.TransportType(c.v == 0 ? ns::Net::TransportType::eTcp : ns::Net::TransportType::eFake); break;
    case kPort: b.BasePort((int)c.v); break;
    case kFile: b.ConnectionFile(g_dir + "/" + kFiles[(size_t)c.v].name); break;
    case kLocal: b.AllPartiesLocal(); break;
    case kLogger: b.Logger(std::make_shared<frn::lib::logging::VoidLogger>()); break;
    case kBuild: try { b.Build(); } catch (const std::exception&) {} break;
  }
}
static std::string show(const std::vector<const Call*>& h) { std::string s; for (auto* c : h) s += std::string(s.empty() ? "" : ", ") + c->name; return s; }

static void connect(const Builder& b, const Model& m, const std::vector<const Call*>& h) {
  long base = m.port < 0 ? ns::Net::kBasePort : m.port; int n = (int)m.size, id = (int)m.id;
  ns::Spec s; s.n = n; s.base = (int)base; s.scope = ns::kAll; s.o.deviations = 0; s.o.policy = (int)(h.size() % 5); s.o.idle_wakes = 20;
  s.party = [&](int me) {
    std::shared_ptr<ns::Net> net;
    if (me == id) { if (h.size() % 2) net = b.BuildShared(); else net.reset(new ns::Net(b.Build())); }
    else { Builder r; r.Size((size_t)n).LocalPeerId(me).TransportType(ns::Net::TransportType::eTcp).AllPartiesLocal(); if (m.port >= 0) r.BasePort((int)m.port); net.reset(new ns::Net(r.Build())); }
    if ((long)net->Size() != m.size || net->LocalPeerId() != me) vh::fail("after [%s] the network reports being party %d of %zu, the settings say party %d of %ld", show(h).c_str(), net->LocalPeerId(), net->Size(), me, m.size);
    net->Connect();
    unsigned char x[2] = {(unsigned char)me, 0}; for (int j = 0; j < n; j++) net->SendTo(j, x, 1);
    for (int j = 0; j < n; j++) { net->RecvFrom(j, x + 1, 1); if (x[1] != j) vh::fail("after [%s] party %d finds party %d in place of party %d", show(h).c_str(), me, x[1], j); }
    net->Close();
  };
  s.after = [&] {
    if ((int)vk::connections().size() != n * (n - 1) / 2) vh::fail("after [%s]: %zu connections among %d parties", show(h).c_str(), vk::connections().size(), n);
    for (auto& c : vk::connections()) {
      if (c.port < base || c.port >= base + n * n || c.port > 65535) vh::fail("after [%s]: port %d is used with base port %ld and %d parties", show(h).c_str(), c.port, base, n);
      if (c.client_group != id) continue;
      if (m.local) { if (c.addr != 0 && c.addr >> 24 != 127) vh::fail("after [%s]: party %d is dialled at %08x although all parties are local", show(h).c_str(), c.server_group, c.addr); }
      else if (c.addr != address(kFiles[(size_t)m.file].lines[(size_t)c.server_group])) vh::fail("after [%s]: party %d is dialled at %08x, the connection file says %s", show(h).c_str(), c.server_group, c.addr, kFiles[(size_t)m.file].lines[(size_t)c.server_group].c_str());
    }
  };
  ns::run(s);
}
// makes the call on b and follows it in the model
static void step(Builder& b, Model& m, const Call& c, const std::vector<const Call*>& h) {
  Must v = verdict(m, c); bool ok = true;
  try { call(b, c); } catch (const std::exception&) { ok = false; }
  if (ok && v == kReject) vh::fail("after [%s] the last call is accepted", show(h).c_str());
  if (!ok && v == kAccept) vh::fail("after [%s] the last call is refused", show(h).c_str());
  if (ok) accept(m, c);
  vh::transitions();
}
static void build(const Builder& b, const Model& m, const std::vector<const Call*>& h) {
  Must v = verdict(m); bool ok = true; std::string why;
  try { b.Build(); } catch (const std::exception& e) { ok = false; why = e.what(); }
  if (ok && v == kReject) vh::fail("after [%s] building succeeds (identity %ld, size %ld, transport %d, base port %ld, file %d, local %d)", show(h).c_str(), m.id, m.size, m.type, m.port, m.file, m.local);
  if (!ok && v == kAccept) vh::fail("after [%s] building fails: %s", show(h).c_str(), why.c_str());
  vh::evals(); vh::state(vh::mix(vh::mix(vh::mix((uint64_t)(m.id + 2), (uint64_t)(m.size + 2)), (uint64_t)(m.port + 2)), (uint64_t)((m.type + 2) * 100 + (m.file + 2) * 4 + m.local)));
  if (ok) { vh::count("networks built and connected"); vh::distinct(vh::hash_str(show(h))); connect(b, m, h); }
}
static void explore(const Builder& b, const Model& m, std::vector<const Call*>& h, const std::vector<Call>& al, int depth) {
  build(b, m, h); vh::progress();
  if (!depth) return;
  for (auto& c : al) { Builder b2 = b; Model m2 = m; h.push_back(&c); step(b2, m2, c, h); explore(b2, m2, h, al, depth - 1); h.pop_back(); }
}
int main(int argc, char** argv) {
  vh::init(argc, argv); bool th = vh::thorough();
  char t[] = "/tmp/vh_c19_XXXXXX"; if (!mkdtemp(t)) vh::die("mkdtemp"); g_dir = t;
  for (auto& f : kFiles) { if (!strcmp(f.name, "missing")) continue; std::ofstream o(g_dir + "/" + f.name); for (size_t i = 0; i < f.lines.size(); i++) { o << f.lines[i]; if (i + 1 < f.lines.size() || f.final_newline) o << "\n"; } }
  const std::vector<Call> all = {
    {kId, 0, "LocalPeerId(0)"}, {kId, 1, "LocalPeerId(1)"}, {kId, 2, "LocalPeerId(2)"}, {kId, -1, "LocalPeerId(-1)"}, {kSize, 0, "Size(0)"}, {kSize, 1, "Size(1)"}, {kSize, 2, "Size(2)"}, {kSize, 3, "Size(3)"},
    {kType, 0, "TransportType(eTcp)"}, {kType, 1, "TransportType(eFake)"}, {kPort, 20000, "BasePort(20000)"}, {kPort, 65535, "BasePort(65535)"}, {kPort, 65536, "BasePort(65536)"}, {kPort, 0, "BasePort(0)"}, {kPort, -5, "BasePort(-5)"},
    {kFile, 0, "ConnectionFile(two)"}, {kFile, 1, "ConnectionFile(three)"}, {kFile, 2, "ConnectionFile(three_b)"}, {kFile, 3, "ConnectionFile(empty)"}, {kFile, 4, "ConnectionFile(missing)"}, {kFile, 5, "ConnectionFile(bad)"},
    {kLocal, 0, "AllPartiesLocal()"}, {kLogger, 0, "Logger()"}, {kBuild, 0, "Build()"}};
  const std::vector<Call> more = {{kId, 3, "LocalPeerId(3)"}, {kId, 1 << 20, "LocalPeerId(1048576)"}, {kSize, 4, "Size(4)"}, {kSize, 7, "Size(7)"}, {kPort, 1025, "BasePort(1025)"}, {kPort, 65500, "BasePort(65500)"}, {kPort, 65526, "BasePort(65526)"}, {kPort, 70000, "BasePort(70000)"}, {kPort, 1 << 20, "BasePort(1048576)"}, {kPort, 9876, "BasePort(9876)"}, {kFile, 6, "ConnectionFile(four)"}, {kFile, 7, "ConnectionFile(one)"}};
  // all sequences up to a depth over the whole alphabet; the first two calls make a case
  for (auto& c1 : all) for (auto& c2 : all) {
    if (!vh::begin("all continuations of %s, %s", c1.name, c2.name)) continue;
    std::vector<const Call*> h; Builder b; Model m; build(b, m, h);
    h.push_back(&c1); step(b, m, c1, h); build(b, m, h);
    h.push_back(&c2); step(b, m, c2, h); explore(b, m, h, all, th ? 4 : 3);
  }
  // longer sequences over the calls that can lead to a network
  std::vector<Call> core; for (int i : {0, 1, 2, 6, 7, 8, 9, 10, 15, 16, 17, 21}) core.push_back(all[(size_t)i]);
  for (auto& c1 : core) for (auto& c2 : core) for (auto& c3 : core) {
    if (!th && (c1.k == c2.k && c2.k == c3.k)) continue;
    if (!th && c1.k != kId && c1.k != kFile) continue;
    if (!vh::begin("longer continuations of %s, %s, %s", c1.name, c2.name, c3.name)) continue;
    std::vector<const Call*> h; Builder b; Model m;
    for (const Call* c : {&c1, &c2, &c3}) { h.push_back(c); step(b, m, *c, h); }
    explore(b, m, h, core, th ? 4 : 3);
  }
  // complete configurations, in every order of their calls, with one further call at any place
  std::vector<Call> extra(all); extra.insert(extra.end(), more.begin(), more.end());
  struct Base { std::vector<int> calls; };
  const Call id3 = more[0], size4 = more[2], p1025 = more[4], p65526 = more[6], four = more[10];
  std::vector<std::vector<Call>> configs = {{all[2], all[7], all[8], all[10], all[16]}, {all[1], all[7], all[8], all[21]}, {id3, size4, all[8], p1025, four}, {all[2], all[7], all[8], p65526, all[17]}, {all[0], all[6], all[8], all[15]}, {all[0], all[5], all[8], all[11], more[11]}};
  for (size_t k = 0; k < configs.size(); k++) {
    std::vector<int> perm; for (size_t i = 0; i < configs[k].size(); i++) perm.push_back((int)i);
    do for (size_t at = 0; at <= perm.size(); at++) {
      std::string p; for (int x : perm) p += std::to_string(x);
      if (!vh::begin("configuration %zu in the order %s with a further call at %zu", k, p.c_str(), at)) continue;
      for (auto& e : extra) for (int twice = 0; twice < (th ? (int)extra.size() : 1); twice++) {
        std::vector<const Call*> h; Builder b; Model m;
        for (size_t i = 0; i <= perm.size(); i++) {
          if (i == at) { h.push_back(&e); step(b, m, e, h); if (twice) { h.push_back(&extra[(size_t)twice]); step(b, m, extra[(size_t)twice], h); } }
          if (i < perm.size()) { h.push_back(&configs[k][(size_t)perm[i]]); step(b, m, *h.back(), h); }
        }
        build(b, m, h);
      }
    } while (std::next_permutation(perm.begin(), perm.end()));
  }
  for (auto& f : kFiles) unlink((g_dir + "/" + f.name).c_str());
  rmdir(t);
  vh::finish();
}
