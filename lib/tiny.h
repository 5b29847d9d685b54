// Pre-included before every source of a "tiny" build: the code under test then runs over the field
// F_p with p = MODEL_P (2, 3, 5 or 7) and with an idealised generator whose outputs are choices the
// explorer enumerates, so exact distributions can be computed by exhausting all executions.
#ifndef TINY_H
#define TINY_H
#include <stdint.h>
#include <string.h>

#include <functional>
#include <stdexcept>
#include <vector>

#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
#include "frn/lib/primitives/prg.h"

namespace frn::lib::math {
struct TinyP : public Prime<TinyP, std::uint64_t, std::int64_t> {
  using ValueType = std::uint64_t;
  static constexpr ValueType kPrime = MODEL_P;
  static std::uint64_t Multiply(const std::uint64_t& a, const std::uint64_t& b) { return a * b % MODEL_P; }
};
}  // namespace frn::lib::math

namespace tiny {
struct Key { unsigned char b[16]; };
// decides the value (below p) of one 8-byte lane of the output of a seed
extern std::function<uint64_t(const Key&, uint64_t lane)> oracle;
}  // namespace tiny

namespace frn::lib::primitives {
// same public interface as PRG
class TapePRG {
 public:
  static constexpr std::size_t BlockSize() { return 16; }
  static constexpr std::size_t SeedSize() { return 16; }
  TapePRG() { memset(mSeed, 0, 16); }
  TapePRG(const unsigned char* seed) { memcpy(mSeed, seed, 16); }
  void Reset() { mCounter = 0; }
  void Next(unsigned char* dest, std::size_t nbytes) {
    tiny::Key k; memcpy(k.b, mSeed, 16);
    for (std::size_t o = 0; o < nbytes; o += 8) {
      uint64_t v = tiny::oracle(k, (uint64_t)mCounter * 2 + o / 8);
      memcpy(dest + o, &v, nbytes - o < 8 ? nbytes - o : 8);
    }
    mCounter += (long)((nbytes + 15) / 16);
  }
  void Next(std::vector<unsigned char>& dest) { Next(dest.data(), dest.size()); }
  void Next(std::vector<unsigned char>& dest, std::size_t nbytes) {
    if (dest.size() < nbytes) throw std::runtime_error("nbytes exceeds dest.size().");
    Next(dest.data(), nbytes);
  }
  const unsigned char* Seed() const { return mSeed; }
  long Counter() const { return mCounter; }

 private:
  unsigned char mSeed[16];
  long mCounter = 0;
};
}  // namespace frn::lib::primitives
#define Mp61 TinyP
#define PRG TapePRG
#endif
