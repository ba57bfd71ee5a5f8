#pragma once
#include <cstdint>
namespace yacl {
inline bool hasAVX2() { return true; }
inline bool hasBMI2() { return true; }
inline uint64_t pdep_u64(uint64_t a, uint64_t mask) {
  uint64_t dst = 0;
  for (uint64_t m = 0, k = 0; m < 64; m++) if (mask & (1ULL << m)) { dst |= ((a >> k) & 1ULL) << m; k++; }
  return dst;
}
inline uint64_t pext_u64(uint64_t a, uint64_t mask) {
  uint64_t dst = 0;
  for (uint64_t m = 0, k = 0; m < 64; m++) if (mask & (1ULL << m)) { dst |= ((a >> m) & 1ULL) << k; k++; }
  return dst;
}
}
