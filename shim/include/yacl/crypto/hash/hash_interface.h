#pragma once
#include "absl/strings/string_view.h"
#include <cstdint>
#include <string>
#include <vector>
#include "yacl/base/byte_container_view.h"
#include "yacl/base/buffer.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
enum class HashAlgorithm : int { UNKNOWN, SHA224, SHA256, SHA384, SHA512, SHA_1, SM3, BLAKE2B, BLAKE3 };
class HashInterface {
 public:
  virtual ~HashInterface() = default;
  virtual HashAlgorithm GetHashAlgorithm() const = 0;
  virtual size_t DigestSize() const = 0;
  virtual HashInterface& Reset() = 0;
  virtual HashInterface& Update(ByteContainerView data) = 0;
  virtual std::vector<uint8_t> CumulativeHash() const = 0;
};
}
