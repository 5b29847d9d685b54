// Shared helpers for the protocol harnesses.
#ifndef PARTIES_H
#define PARTIES_H
#include <array>
#include "mem.h"
namespace par {
using frn::Field; using frn::Shr; using model::u64;
using Rep = frn::lib::secret_sharing::Replicator<Field>;
using PRG = frn::lib::primitives::PRG;

// ShrManipulators are expensive to initialise for larger n; one per (n,d) vector of parties is kept.
inline std::vector<frn::ShrManipulator>& manipulators(int n, int d) {
  static std::map<std::pair<int, int>, std::vector<frn::ShrManipulator>> memo;
  auto& v = memo[{n, d}];
  if (v.empty()) for (int i = 0; i < n; i++) { v.emplace_back((size_t)i, (size_t)d, (size_t)n); vh::progress(); }
  return v;
}
inline Rep& replicator(int n, int d) {
  static std::map<std::pair<int, int>, Rep*> memo;
  auto& r = memo[{n, d}];
  if (!r) r = new Rep((size_t)n, (size_t)d);
  return *r;
}
// Operand alphabet: boundary values of the field and two well-mixed ones.
inline const std::vector<u64>& alphabet() {
  static const std::vector<u64> a = {0, 1, model::P - 1, 2, (u64)1 << 60, 0x123456789ABCDEFULL % model::P, model::P / 2, 3};
  return a;
}
// Consistent keys for the correlated randomness: contributor j's key for additive share s.
enum KeyMode { kDefault = 0, kDistinct = 1, kSameAcrossContributors = 2, kSameAcrossShares = 3, kOneContributor = 4, kModes = 5 };
inline u64 key(int mode, int salt, int j, int s) {
  switch (mode) {
    case kDefault: return 0;
    case kDistinct: return 1 + (u64)salt * 1000003 + (u64)j * 10007 + (u64)s;
    case kSameAcrossContributors: return 77 + (u64)salt * 1000003 + (u64)s;
    case kSameAcrossShares: return 99 + (u64)salt * 1000003 + (u64)j;
    default: return j == 1 ? 500 + (u64)salt * 1000003 + (u64)s : 0;
  }
}
inline void set_own(frn::Correlator& c, int id, int n, int d, int mode, int salt) {
  std::vector<PRG> own;
  for (int s = 0; s < model::placement(n, d).add_size(); s++) own.push_back(mem::prg(key(mode, salt, id, s), 5));
  c.SetOwnPRGs(own);
}
inline void set_rand(frn::Correlator& c, int id, int n, int d, int mode, int salt, int j) {
  std::vector<PRG> r;
  for (int s : model::placement(n, d).of[id]) r.push_back(mem::prg(key(mode, salt, j, s), 5));
  c.SetRandPRGs(r, (unsigned)j);
}
inline frn::Correlator correlator(int id, int n, int d, int mode, int salt) {
  frn::Correlator c((unsigned)id, replicator(n, d));
  if (mode == kDefault) return c;
  if (id < 2 * d + 1) set_own(c, id, n, d, mode, salt);
  for (int j = 0; j < 2 * d + 1; j++) set_rand(c, id, n, d, mode, salt, j);
  return c;
}
inline uint64_t hash_shares(const std::vector<Shr>& v) {
  uint64_t h = 7;
  for (auto& s : v) for (auto& f : s) h = vh::mix(h, mem::val(f));
  return h;
}
inline std::vector<Shr> column(const std::vector<std::vector<Shr>>& by_party, size_t k) {
  std::vector<Shr> r; for (auto& p : by_party) r.push_back(p[k]); return r;
}
}  // namespace par
#endif
