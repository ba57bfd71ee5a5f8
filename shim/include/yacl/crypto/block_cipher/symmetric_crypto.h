#pragma once
#include "yacl/base/int128.h"
namespace yacl::crypto {
class SymmetricCrypto {
 public:
  enum class CryptoType : int { AES128_ECB, AES128_CBC, AES128_CTR, SM4_ECB, SM4_CBC, SM4_CTR };
  SymmetricCrypto(CryptoType, uint128_t key, uint128_t iv = 0) : k_(key), iv_(iv) {}
  uint128_t Encrypt(uint128_t v) const { v ^= k_; for (int i = 0; i < 4; ++i) { v *= (static_cast<uint128_t>(0x9e3779b97f4a7c15ULL) << 64) | 0xbf58476d1ce4e5b9ULL; v ^= v >> 61; } return v; }
  template <class S, class D> void Encrypt(S in, D out) const { for (size_t i = 0; i < in.size(); ++i) out[i] = Encrypt(in[i]); }
 private:
  uint128_t k_, iv_;
};
}
