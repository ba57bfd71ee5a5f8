// NdArrayRef helpers for the run-time contract checks.
#pragma once
#include "common.h"
#include "libspu/core/ndarray_ref.h"
#include "libspu/core/type.h"
#include "libspu/core/type_util.h"

namespace vn {
using namespace spu;
inline int width(FieldType f) { return f == FM32 ? 32 : f == FM64 ? 64 : 128; }
inline u128 mask(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u128 edgyw(int w) {
  switch (below(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return mask(w);
    case 3: return (u128)1 << (w - 1);
    case 4: return ((u128)1 << (w - 1)) - 1;
    case 5: return (u128)1 << below(w);
    case 6: return mask(w) ^ ((u128)1 << below(w));
    case 7: return ((u128)0 - below(16)) & mask(w);
    default: return edgy() & mask(w);
  }
}
// address of a flat (row-major) element through shape/strides only (independent of the indexing code under test)
inline std::byte* addr(const NdArrayRef& a, int64_t flat) {
  auto& sh = a.shape();
  int64_t off = 0;
  for (int64_t d = (int64_t)sh.size() - 1; d >= 0; d--) {
    int64_t i = sh[d] ? flat % sh[d] : 0;
    flat = sh[d] ? flat / sh[d] : 0;
    off += i * a.strides()[d];
  }
  return (std::byte*)a.buf()->data() + a.offset() + off * (int64_t)a.elsize();
}
inline u128 get(const NdArrayRef& a, int64_t i, int bytes, int comp = 0) {
  u128 v = 0;
  memcpy(&v, addr(a, i) + comp * bytes, bytes);
  return v;
}
inline void put(NdArrayRef& a, int64_t i, int bytes, u128 v, int comp = 0) { memcpy(addr(a, i) + comp * bytes, &v, bytes); }
inline int64_t count_of(const Shape& s) {
  int64_t n = 1;
  for (auto d : s) n *= d;
  return n;
}
inline Shape rshape() {
  switch (below(8)) {
    case 0: return {};
    case 1: return {1};
    case 2: return {(int64_t)below(20) + 1};
    case 3: return {(int64_t)below(5) + 1, (int64_t)below(5) + 1};
    case 4: return {(int64_t)below(4) + 1, (int64_t)below(3) + 1, (int64_t)below(4) + 1};
    case 5: return {1, (int64_t)below(5) + 1};
    case 6: return {(int64_t)below(5) + 1, 1};
    default: return {(int64_t)below(7) + 1};
  }
}
// an array of the given shape whose storage layout varies: compact, strided, reversed, broadcast, offset
inline NdArrayRef layout(const Type& ty, const Shape& sh, bool writable = false) {
  uint64_t k = below(5);
  if (k == 0 || sh.ndim() == 0) return NdArrayRef(ty, sh);
  if (k == 1 && !writable) {  // broadcast along some dims (stride 0)
    Strides st(sh.size(), 0);
    int64_t cur = 1;
    for (int64_t d = (int64_t)sh.size() - 1; d >= 0; d--) {
      if (below(2)) { st[d] = cur; cur *= sh[d]; }
    }
    auto buf = std::make_shared<yacl::Buffer>(cur * ty.size() + 64);
    memset(buf->data(), 0, buf->size());
    return NdArrayRef(buf, ty, sh, st, 0);
  }
  // strided with gaps, permuted dims
  Strides st(sh.size(), 0);
  std::vector<size_t> ord(sh.size());
  for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
  if (below(2)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[below(i)]);
  int64_t cur = 1 + below(3);
  for (size_t j = ord.size(); j-- > 0;) {
    st[ord[j]] = cur;
    cur *= sh[ord[j]] + (int64_t)below(2);
  }
  int64_t off = below(4);
  auto buf = std::make_shared<yacl::Buffer>((cur + 8) * (int64_t)ty.size() * 1 + off * ty.size());
  memset(buf->data(), 0x5A, buf->size());
  return NdArrayRef(buf, ty, sh, st, off * ty.size());
}
inline NdArrayRef rarr(const Type& ty, const Shape& sh, int w, bool writable = false) {
  auto a = layout(ty, sh, writable);
  int64_t n = count_of(sh);
  for (int64_t i = 0; i < n; i++) put(a, i, w / 8, edgyw(w));
  return a;
}
inline std::vector<u128> vals(const NdArrayRef& a, int w, int comp = 0) {
  std::vector<u128> v(count_of(a.shape()));
  for (size_t i = 0; i < v.size(); i++) v[i] = get(a, i, w / 8, comp);
  return v;
}
inline std::string showv(const std::vector<u128>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 6; i++) s += (i ? "," : "") + hex(v[i]);
  return s + (v.size() > 6 ? ",..]" : "]");
}
inline std::string shows(const Shape& s) {
  std::string r = "{";
  for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string(s[i]);
  return r + "}";
}
inline FieldType rfield() { static const FieldType f[] = {FM32, FM64, FM128}; return f[below(3)]; }
inline i128 sx(u128 v, int w) { return w >= 128 ? (i128)v : (i128)(v << (128 - w)) >> (128 - w); }
}  // namespace vn
