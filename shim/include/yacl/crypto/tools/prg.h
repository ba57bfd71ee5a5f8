#pragma once
#include <type_traits>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
#include "yacl/base/exception.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
#include "yacl/crypto/rand/rand.h"
namespace verif {
inline void prf_bytes(uint128_t seed, uint64_t ctr, uint8_t* out, size_t n) {
  // one 16-byte block per counter value
  size_t off = 0;
  while (off < n) {
    uint64_t s = static_cast<uint64_t>(seed) ^ (static_cast<uint64_t>(seed >> 64) * 0xda942042e4dd58b5ULL) ^ (ctr * 0xd1342543de82ef95ULL);
    uint64_t b[2] = {splitmix(s), splitmix(s)};
    for (size_t i = 0; i < 16 && off < n; ++i) out[off++] = reinterpret_cast<uint8_t*>(b)[i];
    ++ctr;
  }
}
}
namespace yacl::crypto {
inline uint64_t verif_fill(uint128_t seed, uint64_t iv, uint64_t count, char* p, size_t n) {
  verif::prf_bytes(seed + iv, count, reinterpret_cast<uint8_t*>(p), n);
  return count + (n + 15) / 16;
}
template <typename T>
inline uint64_t FillPRand(SymmetricCrypto::CryptoType, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out) {
  return verif_fill(seed, iv, count, reinterpret_cast<char*>(out.data()), out.size() * sizeof(T));
}
template <typename T>
inline uint64_t FillPRand(SymmetricCrypto::CryptoType t, uint128_t seed, uint64_t iv, uint64_t count, T* p, size_t n) {
  return FillPRand(t, seed, iv, count, absl::Span<T>(p, n));
}
template <typename T>
inline uint64_t FillPRandWithLtN(SymmetricCrypto::CryptoType t, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out, T n) {
  uint64_t c = FillPRand(t, seed, iv, count, out);
  if (n != 0) for (auto& v : out) v = v % n;
  return c;
}
template <typename T>
inline uint64_t FillPRandWithMersennePrime(SymmetricCrypto::CryptoType t, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out) {
  constexpr int e = sizeof(T) == 4 ? 31 : (sizeof(T) == 8 ? 61 : 127);
  constexpr T p = (static_cast<T>(1) << e) - 1;
  uint64_t c = FillPRand(t, seed, iv, count, out);
  for (auto& v : out) { v &= p; if (v == p) v = 0; }
  return c;
}
template <typename T>
class Prg {
  uint128_t seed_; uint64_t ctr_{0};
 public:
  explicit Prg(uint128_t seed = 0, int = 0) : seed_(seed) {}
  T operator()() { T r; ctr_ = FillPRand(SymmetricCrypto::CryptoType::AES128_CTR, seed_, 0, ctr_, absl::Span<T>(&r, 1)); return r; }
  template <typename Y> void Fill(absl::Span<Y> o) { ctr_ = FillPRand(SymmetricCrypto::CryptoType::AES128_CTR, seed_, 0, ctr_, o); }
};
template <typename T>
inline void PrgAesCtr(uint128_t seed, absl::Span<T> o) { FillPRand(SymmetricCrypto::CryptoType::AES128_CTR, seed, 0, 0, o); }
}
