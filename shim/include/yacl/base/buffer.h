#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <string>
#include <string_view>
#include "yacl/base/exception.h"
#include "yacl/base/byte_container_view.h"
namespace yacl {
class Buffer {
  void* ptr_{nullptr};
  int64_t size_{0};
  int64_t cap_{0};
  std::function<void(void*)> deleter_;
  void reset() {
    if (ptr_ != nullptr) { if (deleter_) deleter_(ptr_); else std::free(ptr_); }
    ptr_ = nullptr; size_ = 0; cap_ = 0; deleter_ = nullptr;
  }
 public:
  Buffer() = default;
  explicit Buffer(int64_t size) : size_(size), cap_(size) {
    YACL_ENFORCE(size >= 0, "negative size");
    // filled with a pattern: code under test must not rely on zeroed storage
    if (size > 0) { ptr_ = std::malloc(size); std::memset(ptr_, 0xA5, size); }
  }
  explicit Buffer(size_t size) : Buffer(static_cast<int64_t>(size)) {}
  Buffer(const void* p, size_t size) : Buffer(static_cast<int64_t>(size)) { if (size) std::memcpy(ptr_, p, size); }
  Buffer(void* p, size_t size, const std::function<void(void*)>& d)
      : ptr_(p), size_(size), cap_(size), deleter_(d) {}
  explicit Buffer(const std::string& s) : Buffer(s.data(), s.size()) {}
  Buffer(const ByteContainerView& v) : Buffer(v.data(), v.size()) {}
  Buffer(const Buffer& o) : Buffer(o.ptr_, o.size_) {}
  Buffer& operator=(const Buffer& o) { if (this != &o) { Buffer t(o); swap(t); } return *this; }
  Buffer(Buffer&& o) noexcept { swap(o); }
  Buffer& operator=(Buffer&& o) noexcept { if (this != &o) { reset(); swap(o); } return *this; }
  ~Buffer() { reset(); }
  void swap(Buffer& o) noexcept {
    std::swap(ptr_, o.ptr_); std::swap(size_, o.size_); std::swap(cap_, o.cap_); std::swap(deleter_, o.deleter_);
  }
  template <typename T = void> T* data() { return reinterpret_cast<T*>(ptr_); }
  template <typename T = void> const T* data() const { return reinterpret_cast<const T*>(ptr_); }
  operator std::string_view() const { return std::string_view(reinterpret_cast<const char*>(ptr_), size_); }
  int64_t size() const { return size_; }
  int64_t capacity() const { return cap_; }
  bool operator==(const Buffer& o) const { return size_ == o.size_ && std::memcmp(ptr_, o.ptr_, size_) == 0; }
  void resize(int64_t n) {
    if (n <= cap_) { size_ = n; return; }
    Buffer t(n); if (size_) std::memcpy(t.ptr_, ptr_, size_); swap(t);
  }
  void reserve(int64_t n) { if (n > cap_) { int64_t s = size_; resize(n); size_ = s; } }
  void* release() { void* p = ptr_; ptr_ = nullptr; size_ = cap_ = 0; return p; }
};
inline ByteContainerView::ByteContainerView(const Buffer& b) : ByteContainerView(b.data(), b.size()) {}
inline std::ostream& operator<<(std::ostream& os, const Buffer& b) { return os << "Buffer<" << b.size() << ">"; }
}  // namespace yacl
