#pragma once
// Minimal dense row-major stand-in for the few xtensor facilities libspu uses.
#include <algorithm>
#include <cstdint>
#include <iostream>
#include <numeric>
#include <type_traits>
#include <vector>
namespace xt {
struct no_ownership {};
template <class D> class xexpression {
 public:
  D& derived_cast() & { return static_cast<D&>(*this); }
  const D& derived_cast() const& { return static_cast<const D&>(*this); }
};
template <class T> class xarray : public xexpression<xarray<T>> {
  std::vector<int64_t> shape_, strides_; std::vector<std::conditional_t<std::is_same_v<std::remove_const_t<T>,bool>,uint8_t,std::remove_const_t<T>>> own_; T* ext_{nullptr};
  void dense() { strides_.assign(shape_.size(), 0); int64_t s = 1; for (int64_t i = (int64_t)shape_.size() - 1; i >= 0; --i) { strides_[i] = shape_[i] == 1 ? 0 : s; s *= shape_[i]; } }
 public:
  using value_type = std::remove_const_t<T>;
  using shape_type = std::vector<int64_t>;
  xarray() { own_.resize(1); }
  explicit xarray(const std::vector<int64_t>& sh) : shape_(sh) { dense(); own_.resize(size()); }
  xarray(const std::vector<int64_t>& sh, const std::vector<int64_t>& st, T* p) : shape_(sh), strides_(st), ext_(p) {}
  xarray(const xarray& o) { *this = o.eval(); }
  xarray(xarray&& o) noexcept : shape_(std::move(o.shape_)), strides_(std::move(o.strides_)), own_(std::move(o.own_)), ext_(o.ext_) {}
  xarray(std::initializer_list<T> l) : shape_{(int64_t)l.size()} { dense(); std::copy(l.begin(), l.end(), std::back_inserter(own_)); }
  xarray(T v) { own_.push_back(v); }
  static xarray from_shape(const std::vector<int64_t>& s) { return xarray(s); }
  xarray eval() const { xarray r(shape_); for (int64_t i = 0; i < size(); ++i) r.own_[i] = flat(i); return r; }
  const std::vector<int64_t>& shape() const { return shape_; }
  int64_t shape(size_t i) const { return shape_[i]; }
  const std::vector<int64_t>& strides() const { return strides_; }
  T front() const { return flat(0); }
  size_t dimension() const { return shape_.size(); }
  int64_t size() const { return std::accumulate(shape_.begin(), shape_.end(), int64_t(1), std::multiplies<>()); }
  T* data() { return ext_ ? ext_ : reinterpret_cast<T*>(own_.data()); }
  const T* data() const { return ext_ ? ext_ : reinterpret_cast<const T*>(own_.data()); }
  int64_t off(int64_t i) const { int64_t r = 0; for (int64_t d = (int64_t)shape_.size() - 1; d >= 0; --d) { r += (i % shape_[d]) * strides_[d]; i /= shape_[d]; } return r; }
  const std::remove_const_t<T>& flat(int64_t i) const { return data()[ext_ ? off(i) : i]; }
  template <class V> void set_flat(int64_t i, const V& v) { if (ext_) const_cast<std::remove_const_t<T>&>(ext_[off(i)]) = v; else own_[i] = v; }
  auto operator[](int64_t i) const { return T(flat(i)); }
  template <class... I> T operator()(I... i) const { int64_t idx[] = {static_cast<int64_t>(i)..., 0}; int64_t r = 0; for (size_t d = 0; d < shape_.size(); ++d) r = r * shape_[d] + idx[d]; return flat(r); }
  xarray& operator=(const xarray& o) {
    if (ext_) { for (int64_t i = 0; i < size(); ++i) set_flat(i, o.flat(i)); return *this; }
    if (this == &o) return *this;
    if (o.ext_) return *this = o.eval();
    shape_ = o.shape_; strides_ = o.strides_; own_ = o.own_; return *this;
  }
  bool operator==(const xarray& o) const { if (shape_ != o.shape_) return false; for (int64_t i = 0; i < size(); ++i) if (!(T(flat(i)) == T(o.flat(i)))) return false; return true; }
  struct const_iterator { const xarray* a; int64_t i; using difference_type = int64_t; using value_type = T; using reference = T; using pointer = const T*; using iterator_category = std::input_iterator_tag; T operator*() const { return a->flat(i); } const_iterator& operator++() { ++i; return *this; } bool operator!=(const const_iterator& o) const { return i != o.i; } bool operator==(const const_iterator& o) const { return i == o.i; } };
  const_iterator begin() const { return {this, 0}; }
  const_iterator end() const { return {this, size()}; }
};
template <class T> std::ostream& operator<<(std::ostream& os, const xarray<T>& a) { os << "{"; for (int64_t i = 0; i < a.size(); ++i) os << (i ? ", " : "") << T(a.flat(i)); return os << "}"; }
template <class T> xarray<T> eval(const xarray<T>& a) { return a.eval(); }
template <class T> xarray<T> adapt(T* p, size_t, no_ownership, const std::vector<int64_t>& sh, const std::vector<int64_t>& st) { return xarray<T>(sh, st, p); }
template <class U, class T> xarray<U> cast(const xarray<T>& a) { xarray<U> r(std::vector<int64_t>(a.shape())); for (int64_t i = 0; i < a.size(); ++i) r.set_flat(i, static_cast<U>(a.flat(i))); return r; }
namespace random { template <class T> xarray<T> gen(const std::vector<int64_t>& s, double lo, double hi) { xarray<T> r(s); static uint64_t st = 88172645463325252ULL; for (int64_t i = 0; i < r.size(); ++i) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; r.set_flat(i, static_cast<T>(lo + (hi - lo) * (static_cast<double>(st >> 11) / 9007199254740992.0))); } return r; }
 template <class T> xarray<T> randint(const std::vector<int64_t>& s, T lo, T hi) { return gen<T>(s, lo, hi); }
 template <class T> xarray<T> rand(const std::vector<int64_t>& s, T lo, T hi) { return gen<T>(s, lo, hi); } }
template <class T = bool> xarray<T> eye(const std::vector<size_t>& s, int k) { xarray<T> r(std::vector<int64_t>(s.begin(), s.end())); for (size_t i = 0; i < s[0]; ++i) { int64_t j = (int64_t)i + k; if (j >= 0 && j < (int64_t)s[1]) r.set_flat(i * s[1] + j, T(1)); } return r; }
}
