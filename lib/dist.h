// Exact distributions by exhausting a choice tape.
#ifndef DIST_H
#define DIST_H
#include "vh.h"
#include "model.h"
#include "tiny.h"
#include <map>
#include <unordered_map>
namespace tiny { std::function<uint64_t(const Key&, uint64_t)> oracle; }
namespace dist {
typedef uint64_t u64;
// Choice tape: choices are made on first use and then enumerated depth first.
struct Tape {
  std::vector<int> v; size_t pos = 0; int base = (int)MODEL_P;
  void rewind() { pos = 0; }
  int choose() { if (pos == v.size()) v.push_back(0); return v[pos++]; }
  bool next() {            // advance to the next unexplored path; false when all are done
    v.resize(pos);
    while (!v.empty()) { if (++v.back() < base) return true; v.pop_back(); }
    return false;
  }
};
// A random function from (seed, lane) to choices, memoised within one execution.
struct RandomFunction {
  std::map<std::pair<std::string, u64>, u64> memo;
  static std::string key(const tiny::Key& k) { return std::string((const char*)k.b, 16); }
};
constexpr int kMax = 40;
inline u64 weight(size_t used) { if (used > (size_t)kMax) vh::die("tape too long"); unsigned __int128 w = 1; size_t n = 0; double lim = 62.0; (void)lim; size_t K = MODEL_P == 2 ? 40 : MODEL_P == 3 ? 25 : MODEL_P == 5 ? 17 : 14; if (used > K) vh::die("tape too long"); for (n = used; n < K; n++) w *= MODEL_P; return (u64)w; }
typedef std::unordered_map<u64, u64> Hist;
inline u64 hist_hash(const Hist& h) { u64 s = 0; for (auto& kv : h) s += vh::mix(kv.first, kv.second * 0x9E3779B97F4A7C15ULL); return s; }
inline bool equal(const Hist& a, const Hist& b) { return a == b; }
inline bool disjoint(const Hist& a, const Hist& b) { for (auto& kv : a) if (b.count(kv.first)) return false; return true; }
}  // namespace dist
#endif
