#pragma once
#include "yacl/crypto/hash/hash_interface.h"
namespace yacl::crypto {
// deterministic 32-byte non-cryptographic stand-in
class Blake3Hash : public HashInterface {
  uint64_t h_[4]{1, 2, 3, 4};
 public:
  explicit Blake3Hash(size_t = 32) {}
  HashAlgorithm GetHashAlgorithm() const override { return HashAlgorithm::BLAKE3; }
  size_t DigestSize() const override { return 32; }
  HashInterface& Reset() override { for (int i = 0; i < 4; ++i) h_[i] = i + 1; return *this; }
  HashInterface& Update(ByteContainerView d) override {
    for (size_t i = 0; i < d.size(); ++i) for (int j = 0; j < 4; ++j) { h_[j] = (h_[j] ^ d[i]) * 0x100000001b3ULL + j; h_[j] ^= h_[j] >> 29; }
    return *this; }
  std::vector<uint8_t> CumulativeHash() const override { std::vector<uint8_t> r(32); std::memcpy(r.data(), h_, 32); return r; }
};
}
