#pragma once
#include <tuple>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/int128.h"
namespace yacl {
inline Buffer SerializeUint128(uint128_t v) { return Buffer(&v, sizeof(v)); }
inline uint128_t DeserializeUint128(ByteContainerView b) { uint128_t v; YACL_ENFORCE(b.size() == sizeof(v)); std::memcpy(&v, b.data(), sizeof(v)); return v; }
}
namespace yacl {
template <typename... T> inline Buffer SerializeVars(const T&... v) {
  Buffer b(static_cast<int64_t>((sizeof(T) + ...))); size_t o = 0;
  ((std::memcpy(b.data<char>() + o, &v, sizeof(T)), o += sizeof(T)), ...); return b; }
template <typename T> inline T DeserializeVars(ByteContainerView b) { T v; YACL_ENFORCE(b.size() == sizeof(T)); std::memcpy(&v, b.data(), sizeof(T)); return v; }
}
