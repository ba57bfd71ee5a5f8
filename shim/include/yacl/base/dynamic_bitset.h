#pragma once
#include <cstdint>
#include <vector>
#include "yacl/base/int128.h"
namespace yacl {
template <typename T = uint128_t>
class dynamic_bitset {
  std::vector<T> blk_; size_t n_{0};
 public:
  static constexpr size_t W = sizeof(T) * 8;
  struct reference { dynamic_bitset* b; size_t i; operator bool() const { return static_cast<const dynamic_bitset*>(b)->test(i); }
    reference& operator=(bool v) { b->set(i, v); return *this; } reference& operator=(const reference& o) { b->set(i, bool(o)); return *this; } };
  dynamic_bitset() = default;
  explicit dynamic_bitset(size_t n, unsigned long long v = 0) { resize(n); if (n && v) blk_[0] = static_cast<T>(v); }
  void resize(size_t n) { n_ = n; blk_.resize((n + W - 1) / W, 0); }
  size_t size() const { return n_; }
  size_t num_blocks() const { return blk_.size(); }
  bool test(size_t i) const { return (blk_[i / W] >> (i % W)) & 1; }
  bool operator[](size_t i) const { return test(i); }
  reference operator[](size_t i) { return {this, i}; }
  void set(size_t i, bool v) { T m = static_cast<T>(1) << (i % W); if (v) blk_[i / W] |= m; else blk_[i / W] &= ~m; }
  T* data() { return blk_.data(); }
  const T* data() const { return blk_.data(); }
};
}
