// C16: every system call of short histories made to fail in every listed way (one fault, two faults),
// connections lost before any read, short transfers; under schedules up to a deviation bound.
#include <system_error>
#include "netsim.h"
#define QUIET __attribute__((no_sanitize("thread")))

enum Phase { kConnecting, kTalking, kClosing, kEnded };
static int g_phase[8], g_end[8];      // g_end: where a party was when nothing could run
 static bool g_setup_failed[8]; static size_t g_got[8][8], g_sent[8][8]; static int g_errors[8]; static bool g_clean[8];   // g_clean: closing reported nothing
static unsigned char content(int i, int j, size_t pos) { return (unsigned char)(vh::mix((uint64_t)(i * 8 + j) + 9, pos) >> 9); }
static size_t g_slack[8][8]; static int g_go_on;      // g_slack: bytes a failed receive may have consumed; g_go_on: what a party does after an error
struct Op { bool send; int peer; size_t n; };
typedef std::vector<std::vector<Op>> Script;
static bool setup_call(vk::Call c) { return c == vk::kSocket || c == vk::kSetopt || c == vk::kBind || c == vk::kListen || c == vk::kAccept; }

static void party(int me, int n, const std::vector<Op>& ops) {
  g_phase[me] = kConnecting;
  auto net = ns::make(me, n, 20000);
  bool up = false;
  vk::Call c; int e, g;
  try { net->Connect(); up = true; }
  catch (const sched::Aborted&) { g_end[me] = kConnecting; }
  catch (const std::system_error& x) {
    if (!vk::fault_injected(&c, &e, &g)) vh::fail("party %d: connecting fails without a fault: %s", me, x.what());
    if (g == me && (setup_call(c) || c == vk::kClose) && vk::faults_injected() == 1 && x.code().value() != e) vh::fail("party %d: a call failed with error %d while connecting, the exception carries %d", me, e, x.code().value());
    if (g != me && vk::faults_injected() == 1) vh::fail("party %d: connecting fails although only a call of party %d failed: %s", me, g, x.what());
  } catch (const std::exception& x) { vh::fail("party %d: connecting raises something other than a system error: %s", me, x.what()); }
  if (up && vk::fault_injected(&c, &e, &g) && g == me && setup_call(c) && vk::faults_injected() == 1) vh::fail("party %d: connecting reports success although call %d failed with error %d", me, (int)c, e);
  if (up) {
    g_phase[me] = kTalking;
    bool over = false;
    for (size_t at = 0, tries = 0; at < ops.size() && !over;) {
      const Op& op = ops[at];
      try {
        if (op.send) { std::vector<unsigned char> b(op.n); for (size_t k = 0; k < op.n; k++) b[k] = content(me, op.peer, g_sent[me][op.peer] + k); g_sent[me][op.peer] += op.n; net->SendTo(op.peer, b.data(), op.n); }
        else {
          std::vector<unsigned char> b(op.n, 0xA5); net->RecvFrom(op.peer, b.data(), op.n);
          size_t& got = g_got[op.peer][me]; size_t& slack = g_slack[op.peer][me]; bool found = false;
          for (size_t skip = 0; skip <= slack && !found; skip++) {
            bool same = true; for (size_t k = 0; k < op.n; k++) same = same && b[k] == content(op.peer, me, got + skip + k);
            if (same) { found = true; got += skip; slack -= skip; }
          }
          if (!found) vh::fail("party %d: receiving %zu bytes from party %d returns normally, but they are not what was sent after byte %zu of the stream%s | schedule: %s", me, op.n, op.peer, got, slack ? " (or any of the bytes that failed receives may have taken)" : "", sched::schedule().c_str());
          got += op.n;
          if (got > g_sent[op.peer][me]) vh::fail("party %d receives bytes that party %d has not sent", me, op.peer);
        }
        at++; tries = 0;
      } catch (const sched::Aborted&) { g_end[me] = kTalking; over = true;
      } catch (const std::exception& x) {
        if (!vk::faults_injected()) vh::fail("party %d: exception without a fault: %s | schedule: %s", me, x.what(), sched::schedule().c_str());
        g_errors[me]++;
        if (!op.send) g_slack[op.peer][me] += op.n;
        if (!g_go_on) over = true; else if (g_go_on == 2 && tries < 2) tries++; else { at++; tries = 0; }
      }
    }
  } else if (g_end[me] < 0) g_setup_failed[me] = true;
  g_phase[me] = kClosing;
  g_clean[me] = up;
  for (int tries = 0;; tries++) {
    try { net->Close(); break; }
    catch (const sched::Aborted&) { g_end[me] = kClosing; g_clean[me] = false; }
    catch (const std::exception& x) {
      g_clean[me] = false;
      if (!vk::faults_injected()) vh::fail("party %d: closing raises an exception without a fault: %s", me, x.what());
      if (tries > n) vh::fail("party %d: closing keeps failing after %d faults: %s", me, vk::faults_injected(), x.what());
    }
  }
  if (g_end[me] < 0) if (int k = sched::live_in_group(me)) vh::fail("party %d: close returned while %d sender threads are still running | schedule: %s", me, k, sched::schedule().c_str());
  net.reset();
  g_phase[me] = kEnded;
  if (!up) vk::end_process(me);
}
static void play(const Script& sc, sched::Options o, vk::Config k) {
  ns::Spec s; s.n = (int)sc.size(); s.o = o; s.k = k; s.scope = ns::kAll; s.o.expect_deadlock = true; s.o.steps = 20000; s.o.idle_wakes = 3;
  s.before = [] { memset(g_phase, 0, sizeof g_phase); for (int& x : g_end) x = -1; memset(g_setup_failed, 0, sizeof g_setup_failed); memset(g_got, 0, sizeof g_got); memset(g_slack, 0, sizeof g_slack); memset(g_sent, 0, sizeof g_sent); memset(g_errors, 0, sizeof g_errors); memset(g_clean, 0, sizeof g_clean); };
  s.party = [&sc](int me) { party(me, (int)sc.size(), sc[(size_t)me]); };
  s.after = [&] {
    int n = (int)sc.size(); bool failed = false, stuck = false, setup_fault = vk::fault_injected();
    for (int i = 0; i < n; i++) { failed = failed || g_setup_failed[i]; stuck = stuck || g_end[i] == kConnecting; }
    // who never gets a connection because a peer's set-up failed waits (dialling or accepting); others must end
    if (sched::deadlocked()) {
      // (a sender that hits an error on a connection that stays open may leave its peer waiting)
      if (k.transient) stuck = true; else if (!failed) vh::fail("no progress%s: %s | schedule: %s", setup_fault ? " after a failed call" : "", sched::deadlock_threads().c_str(), sched::schedule().c_str());
      // (closing waits for a party that is stuck itself and does not read more than its buffer holds)
      auto full = [&](int i) { for (int j = 0; j < n; j++) if (j != i && k.cap && (g_phase[j] != kEnded || g_end[j] >= 0) && g_sent[i][j] > g_got[i][j] + k.cap) return true; return false; };
      for (int i = 0; i < n; i++) if (((g_end[i] == kClosing || g_phase[i] == kClosing) && !full(i)) || (g_end[i] == kTalking && !stuck)) vh::fail("party %d does not get past %s after the set-up of another party failed: %s | schedule: %s", i, g_end[i] == kClosing || g_phase[i] == kClosing ? "closing" : "receiving", sched::deadlock_threads().c_str(), sched::schedule().c_str());
      vh::count("executions in which a peer of a failed party keeps waiting for a connection");
    }
    std::string x = vk::stray(); if (!x.empty()) vh::fail("%s | schedule: %s", x.c_str(), sched::schedule().c_str());
    if (vk::faults_injected()) vh::count("executions with a fault"); else for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { size_t want = 0; for (auto& op : sc[(size_t)j]) if (!op.send && op.peer == i) want += op.n; if (g_got[i][j] != want) vh::fail("party %d received %zu of %zu bytes from party %d without a fault", j, g_got[i][j], want, i); }
    // what was sent was handed to the system, or somebody was told that it was not
    for (auto& c : vk::connections()) for (int d = 0; d < 2; d++) {
      int i = d ? c.server_group : c.client_group, j = d ? c.client_group : c.server_group; if (i < 0 || j < 0 || !g_clean[i]) continue;
      size_t w = d ? c.s2c : c.c2s; if (w != g_sent[i][j]) vh::fail("party %d sent %zu bytes to party %d, of which %zu were transferred; closing reports nothing | schedule: %s", i, g_sent[i][j], j, w, sched::schedule().c_str());
    }
    for (int i = 0; i < n; i++) if (g_phase[i] == kEnded && !g_clean[i] && !g_setup_failed[i] && g_end[i] < 0) { vh::count("executions in which closing raised an exception"); break; }
    int er = 0; for (int i = 0; i < n; i++) er += g_errors[i]; if (er) vh::count("executions in which a receive raised an exception");
  };
  ns::run(s); vh::distinct_case();
}
int main(int argc, char** argv) {
  vh::init(argc, argv); bool th = vh::thorough();
  struct S { const char* name; Script sc; };
  std::vector<S> all;
  all.push_back({"one message", {{{true, 1, 3}}, {{false, 0, 3}}}});
  all.push_back({"split message", {{{true, 1, 5}}, {{false, 0, 2}, {false, 0, 3}}}});
  all.push_back({"two messages, one receive", {{{true, 1, 2}, {true, 1, 3}}, {{false, 0, 5}}}});
  all.push_back({"two longer messages", {{{true, 1, 3}, {true, 1, 4}}, {{false, 0, 2}, {false, 0, 5}}}});
  all.push_back({"request and response", {{{true, 1, 2}, {false, 1, 3}}, {{false, 0, 2}, {true, 0, 3}}}});
  all.push_back({"exchange", {{{true, 1, 2}, {true, 0, 1}, {false, 1, 2}, {false, 0, 1}}, {{true, 0, 2}, {false, 0, 1}, {false, 0, 1}}}});
  all.push_back({"two rounds", {{{true, 1, 1}, {false, 1, 1}, {true, 1, 2}, {false, 1, 2}}, {{true, 0, 1}, {false, 0, 1}, {true, 0, 2}, {false, 0, 2}}}});
  all.push_back({"three parties", {{{true, 1, 2}, {true, 2, 1}, {false, 1, 2}, {false, 2, 2}}, {{true, 0, 2}, {true, 2, 2}, {false, 0, 2}, {false, 2, 1}}, {{true, 0, 2}, {true, 1, 1}, {false, 0, 1}, {false, 1, 2}}}});
  all.push_back({"three parties in a ring", {{{true, 1, 3}, {false, 2, 3}}, {{false, 0, 3}, {true, 2, 3}}, {{false, 1, 3}, {true, 0, 3}}}});
  const unsigned kSetup = 1u << vk::kSocket | 1u << vk::kSetopt | 1u << vk::kBind | 1u << vk::kListen | 1u << vk::kAccept | 1u << vk::kConnect, kIo = 1u << vk::kRead | 1u << vk::kWrite | 1u << vk::kClose;
  struct F { const char* name; unsigned f; bool eof, short_io, transient = false, sticky = false; };
  F kinds[] = {{"set-up calls fail", kSetup, false, false}, {"transfers and closing fail", kIo, false, false}, {"connections are lost", 0, true, false}, {"lost connections and short transfers", 0, true, true}, {"anything fails", kSetup | kIo, true, false},
    {"transfers fail and may work again, short transfers", 1u << vk::kRead | 1u << vk::kWrite, false, true, true},
    {"transfers fail and keep failing", 1u << vk::kRead | 1u << vk::kWrite, false, false, false, true}};
  const char* after[] = {"", ", going on after an error", ", trying again after an error"};
  for (int go = 1; go < 3; go++) for (auto& s : all) for (auto& f : kinds) for (size_t cap : {(size_t)0, (size_t)2}) for (int pol = 0; pol < 5; pol++) {
    bool big = s.sc.size() > 2;
    if (f.f == kSetup || (f.sticky && cap) || (!th && pol > 1 && (cap || !big))) continue;
    if (!vh::begin("%s, %s, capacity %zu, %s%s", s.name, f.name, cap, ns::policy_name(pol), after[go])) continue;
    sched::Options o; o.policy = pol; o.env = f.transient && !big ? 2 : 1; o.deviations = th && !big ? 1 : 0; g_go_on = go;
    vk::Config k; k.faults = f.f; k.eof = f.eof; k.short_io = f.short_io; k.transient = f.transient; k.sticky = f.sticky; k.cap = cap; play(s.sc, o, k); g_go_on = 0;
  }
  for (auto& s : all) for (auto& f : kinds) for (size_t cap : {(size_t)0, (size_t)2}) for (int pol = 0; pol < 5; pol++) for (int mode = 0; mode < 2; mode++) {
    bool big = s.sc.size() > 2;
    if (f.sticky && (mode || cap)) continue;
    // one fault under deviating schedules, or two faults under the default schedule of each policy
    if (!vh::begin("%s, %s, capacity %zu, %s, %s", s.name, f.name, cap, ns::policy_name(pol), mode ? "two faults" : "one fault")) continue;
    sched::Options o; o.policy = pol; o.env = mode ? 2 : 1; o.deviations = mode ? (th && !big ? 2 : big || (!th && pol > 1) ? 0 : 1) : big || (!th && pol > 1) ? 1 : 2;
    vk::Config k; k.faults = f.f; k.eof = f.eof; k.short_io = f.short_io; k.transient = f.transient; k.sticky = f.sticky; k.cap = cap; play(s.sc, o, k);
  }
  vh::finish();
}
