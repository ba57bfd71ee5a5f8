#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/exception.h"
namespace yacl {
class Buffer;
class ByteContainerView : public absl::Span<const uint8_t> {
 public:
  ByteContainerView() = default;
  ByteContainerView(const void* p, size_t n)
      : absl::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(p), n) {}
  ByteContainerView(const char* p) : ByteContainerView(p, std::strlen(p)) {}
  ByteContainerView(const std::string& s) : ByteContainerView(s.data(), s.size()) {}
  ByteContainerView(std::string_view s) : ByteContainerView(s.data(), s.size()) {}
  template <typename T>
  ByteContainerView(const std::vector<T>& v) : ByteContainerView(v.data(), v.size() * sizeof(T)) {}
  template <typename T, size_t N>
  ByteContainerView(const std::array<T, N>& v) : ByteContainerView(v.data(), N * sizeof(T)) {}
  template <typename T>
  ByteContainerView(absl::Span<T> v) : ByteContainerView(v.data(), v.size() * sizeof(T)) {}
  ByteContainerView(const Buffer& b);
  explicit operator std::string() const { return std::string(reinterpret_cast<const char*>(data()), size()); }
  explicit operator std::string_view() const { return std::string_view(reinterpret_cast<const char*>(data()), size()); }
};
}  // namespace yacl
#include "yacl/base/buffer.h"
