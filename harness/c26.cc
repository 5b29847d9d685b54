// C26: every format string up to a length over an alphabet with the placeholder, every kind of
// argument in every position, through every logger.
#include <sys/mman.h>
#include <iostream>

#include "frn/lib/logging.h"
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
#include "frn/util.h"
#include "vh.h"
using namespace frn::lib::logging;
typedef Logger::Level Level;

struct Ev { int kind; Level lv; std::string msg; };    // 0 begin, 1 message, 2 end
class Recorder : public Logger {
 public:
  std::vector<Ev> ev;
  std::string ToString() const { return "Recorder"; }
 protected:
  void LogBegin(Level l) { ev.push_back({0, l, ""}); }
  void Log(const std::string& s) { ev.push_back({1, Level::eInfo, s}); }
  void LogEnd(Level l) { ev.push_back({2, l, ""}); }
};
// captured standard output, whatever way it is written
struct Capture {
  int saved, fd; Capture() { fflush(stdout); std::cout.flush(); saved = dup(1); fd = memfd_create("out", 0); if (fd < 0 || saved < 0) vh::die("capture"); dup2(fd, 1); }
  std::string take() { std::cout.flush(); fflush(stdout); off_t n = lseek(fd, 0, SEEK_END); std::string s((size_t)n, 0); if (pread(fd, &s[0], (size_t)n, 0) != n) vh::die("capture"); if (ftruncate(fd, 0)) vh::die("capture"); lseek(fd, 0, SEEK_SET); return s; }
};
static Capture* cap;
static Recorder rec; static VoidLogger* none; static StdoutLogger *plain, *stamped; static std::shared_ptr<Logger> deflt, madep, madev;

struct Custom { int x; };
static std::ostream& operator<<(std::ostream& o, const Custom& c) { return o << "<" << c.x << "%>"; }

static int secs(const std::string& s, size_t at) {   // HH:MM:SS
  for (int i = 0; i < 8; i++) { char c = s[at + (size_t)i]; if (i % 3 == 2 ? c != ':' : c < '0' || c > '9') return -1; }
  auto d = [&](size_t k) { return (s[at + k] - '0') * 10 + s[at + k + 1] - '0'; };
  if (d(0) > 23 || d(3) > 59 || d(6) > 60) return -1;
  return d(0) * 3600 + d(3) * 60 + d(6);
}
static int today(time_t t) { struct tm tm; localtime_r(&t, &tm); return tm.tm_hour * 3600 + tm.tm_min * 60 + tm.tm_sec; }

template <class L, class... A> void call(L& l, Level lv, const char* f, A&&... a) {
  if (lv == Level::eInfo) l.Info(f, a...); else if (lv == Level::eWarn) l.Warn(f, a...); else l.Error(f, a...);
}
template <class... A> void check(const std::string& fmt, const std::string& want, A&&... a) {
  for (Level lv : {Level::eInfo, Level::eWarn, Level::eError}) {
    Logger& base = rec; rec.ev.clear(); call(base, lv, fmt.c_str(), a...);
    if (rec.ev.size() != 3 || rec.ev[0].kind != 0 || rec.ev[1].kind != 1 || rec.ev[2].kind != 2) vh::fail("format '%s': %zu notifications, or out of order", fmt.c_str(), rec.ev.size());
    if (rec.ev[0].lv != lv || rec.ev[2].lv != lv) vh::fail("format '%s': wrong level", fmt.c_str());
    if (rec.ev[1].msg != want) vh::fail("format '%s' with %zu arguments renders '%s', expected '%s'", fmt.c_str(), sizeof...(a), rec.ev[1].msg.c_str(), want.c_str());
    const char* mark = lv == Level::eInfo ? "[ ] " : lv == Level::eWarn ? "[W] " : "[E] ";
    call(*plain, lv, fmt.c_str(), a...); std::string s = cap->take();
    if (s != mark + want + "\n") vh::fail("console logger prints '%s', expected '%s%s\\n'", s.c_str(), mark, want.c_str());
    call(*none, lv, fmt.c_str(), a...); s = cap->take();
    if (!s.empty()) vh::fail("void logger prints '%s'", s.c_str());
    for (Logger* st : {(Logger*)stamped, deflt.get()}) {
      time_t t0 = time(0); call(*st, lv, fmt.c_str(), a...); time_t t1 = time(0); s = cap->take();
      bool ok = s.size() == want.size() + 4 + 11 + 1 && s.substr(0, 4) == mark && s[4] == '[' && s.substr(13, 2) == "] " && s.substr(15) == want + "\n";
      int at = ok ? secs(s, 5) : -1; bool intime = false;
      if (ok) for (time_t t = t0 - 1; t <= t1 + 1 && !intime; t++) intime = at == today(t);
      if (!ok || !intime) vh::fail("console logger with time stamps prints '%s' for '%s%s'", s.c_str(), mark, want.c_str());
    }
    vh::evals(5);
  }
}
typedef frn::lib::math::FpElement<frn::lib::math::Mp61> F;
// argument kinds: value and rendering
template <int K> struct Arg;
template <> struct Arg<0> { static int v() { return -42; } static const char* s() { return "-42"; } };
template <> struct Arg<1> { static std::string v() { return "x%y%%"; } static const char* s() { return "x%y%%"; } };
template <> struct Arg<2> { static const char* v() { return "%"; } static const char* s() { return "%"; } };
template <> struct Arg<3> { static F v() { return F(777); } static const char* s() { return "777"; } };
template <> struct Arg<4> { static char v() { return '%'; } static const char* s() { return "%"; } };
template <> struct Arg<5> { static Custom v() { return Custom{5}; } static const char* s() { return "<5%>"; } };
template <> struct Arg<6> { static std::string v() { return ""; } static const char* s() { return ""; } };
template <> struct Arg<7> { static unsigned long v() { return 18446744073709551615UL; } static const char* s() { return "18446744073709551615"; } };
constexpr int NK = 8;

static std::string expand(const std::string& f, const std::vector<std::string>& a) { std::string r; size_t k = 0; for (char c : f) { if (c == '%') r += a[k++]; else r += c; } return r; }
template <int... K> void with(const std::string& f) {
  auto t = std::make_tuple(Arg<K>::v()...);
  std::apply([&](auto&... a) { check(f, expand(f, {Arg<K>::s()...}), a...); }, t);   // lvalues
}
template <int A> void one(const std::string& f) { with<A>(f); }
template <int A, int... B> void two(const std::string& f, std::integer_sequence<int, B...>) { (with<A, B>(f), ...); }
template <int... A> void all1(const std::string& f, std::integer_sequence<int, A...>) { (with<A>(f), ...); }
template <int... A> void all2(const std::string& f, std::integer_sequence<int, A...> s) { (two<A>(f, s), ...); }
template <int... A> void all3(const std::string& f, std::integer_sequence<int, A...>) { (with<A, (A + 1) % NK, (A + 3) % NK>(f), ...); (with<A, A, A>(f), ...); }
template <int... A> void all4(const std::string& f, std::integer_sequence<int, A...>) { (with<A, (A + 1) % NK, (A + 2) % NK, (A + 5) % NK>(f), ...); }

int main(int argc, char** argv) {
  vh::init(argc, argv); bool th = vh::thorough();
  cap = new Capture; none = new VoidLogger; plain = new StdoutLogger(); stamped = new StdoutLogger(true); deflt = frn::CreateLogger();
  auto ks = std::make_integer_sequence<int, NK>();
  const std::string al = th ? "%a s\\{" : "%a s"; int maxlen = 6;
  for (int len = 0; len <= maxlen; len++) {
    int tot = 1; for (int i = 0; i < len; i++) tot *= (int)al.size();
    int parts = len < 4 ? 1 : 64;
    for (int part = 0; part < parts; part++) {
      if (!vh::begin("formats of length %d over '%s', part %d", len, al.c_str(), part)) continue;
      for (int k = part; k < tot; k += parts) {
        std::string f; int x = k; size_t holes = 0; for (int i = 0; i < len; i++) { char c = al[(size_t)(x % (int)al.size())]; x /= (int)al.size(); f += c; holes += c == '%'; }
        vh::distinct(vh::hash_str(f)); vh::progress();
        switch (holes) {
          case 0: check(f, f); break;
          case 1: all1(f, ks); break;
          case 2: all2(f, ks); break;
          case 3: all3(f, ks); break;
          case 4: all4(f, ks); break;
          case 5: with<0, 1, 2, 3, 7>(f); break;
          case 6: with<6, 1, 5, 3, 0, 2>(f); break;
        }
      }
    }
  }
  if (vh::begin("long messages, rvalue arguments, many placeholders")) {
    std::string big(100000, 'z'); check(big, big); check(big + "%", big + "7", 7); check("%" + big, big + big, big);
    check("%%%%%%%%", "12345678", 1, 2, 3, 4, 5, 6, 7, 8); check("a%b%c", "a1bxc", 1, "x");
    const char* s = "const"; std::string t = "str"; check("% %", "const str", s, t); check("tab\t%\"", "tab\t9\"", 9ul); check("%", "1.5", 1.5); check("%", "1", true);
    vh::distinct_case();
  }
  for (long n : vh::sizes(1, 70000, false)) if (vh::begin("messages and formats of %ld characters, with line breaks", n)) {
    std::string a((size_t)n, 'q'), b; for (long i = 0; i < n; i++) b += i % 61 == 60 ? '\n' : (char)('a' + i % 23);
    check(a, a); check("%", b, b); check(b, b); check("x%y%", "x" + a + "y" + b, a, b); check(b + "%" + a, b + "5" + a, 5);
    vh::distinct_case(); vh::progress();
  }
  for (const char* s : {"\n", "a\n", "\n\n", "\r\n", "a\nb", "\t", "\x1b[0m", "\xc3\xa9", "\x01", "\x7f\xff"}) if (vh::begin("special characters in formats and arguments, length %zu", strlen(s))) { std::string t(s); check(t, t); check("%", t, t); check("a%b" + t, "a" + t + "b" + t, s); vh::distinct_case(); }
  if (vh::begin("interleaved loggers do not influence each other")) {
    Recorder a, b; a.Info("x%", 1); b.Error("y%", 2); a.Warn("z");
    VCHECK(a.ev.size() == 6 && b.ev.size() == 3 && a.ev[1].msg == "x1" && a.ev[4].msg == "z" && b.ev[1].msg == "y2", "interleaved loggers"); vh::evals(3); vh::distinct_case();
  }
  vh::finish();
}
