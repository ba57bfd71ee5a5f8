#pragma once
#include <algorithm>
#include <cstdint>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/exception.h"
namespace verif {
inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
// deterministic "system entropy", seeded per thread by the harness
inline uint64_t& entropy() { thread_local uint64_t s = 0x1234567; return s; }
}
namespace yacl::crypto {
inline uint64_t RandU64(bool = false) { return verif::splitmix(verif::entropy()); }
inline uint32_t RandU32(bool = false) { return static_cast<uint32_t>(RandU64()); }
inline uint128_t RandU128(bool = false) { uint64_t h = RandU64(); return yacl::MakeUint128(h, RandU64()); }
inline uint128_t SecureRandU128() { return RandU128(); }
inline uint64_t SecureRandU64() { return RandU64(); }
inline uint128_t SecureRandSeed() { return RandU128(); }
inline uint128_t FastRandSeed() { return RandU128(); }
inline std::vector<uint8_t> RandBytes(uint64_t n, bool = false) { std::vector<uint8_t> r(n); for (auto& x : r) x = static_cast<uint8_t>(RandU64()); return r; }
inline std::vector<bool> RandBits_(uint64_t n) { std::vector<bool> r(n); for (uint64_t i = 0; i < n; ++i) r[i] = RandU64() & 1; return r; }
template <typename T = dynamic_bitset<uint128_t>>
inline T RandBits(uint64_t n, bool = false) { T r; r.resize(n); for (uint64_t i = 0; i < n; ++i) r[i] = (RandU64() & 1) != 0; return r; }
struct YaclReplayUrbg {
  using result_type = uint64_t;
  uint64_t s; uint64_t ctr{0};
  YaclReplayUrbg(uint128_t seed, uint64_t c) : s(static_cast<uint64_t>(seed) ^ static_cast<uint64_t>(seed >> 64) ^ (c * 0x9e3779b97f4a7c15ULL)), ctr(c) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~0ULL; }
  result_type operator()() { ctr++; return verif::splitmix(s); }
  uint64_t GetCounter() const { return ctr; }
};
template <typename It>
void ReplayShuffle(It first, It last, uint128_t seed, uint64_t* ctr) {
  YaclReplayUrbg g(seed, *ctr);
  auto n = last - first;
  for (auto i = n - 1; i > 0; --i) std::swap(first[i], first[g() % (i + 1)]);
  *ctr = g.GetCounter() + 1;
}
}
