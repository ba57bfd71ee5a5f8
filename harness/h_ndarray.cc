// Builds array references from their parts and exposes views, indexing and iterators by address.
#include "libspu/core/ndarray_ref.h"
namespace vh {
using namespace spu;
NdArrayRef mk(const std::shared_ptr<yacl::Buffer>& b, const Type& t, const Shape& s, const Strides& st, int64_t off) { return NdArrayRef(b, t, s, st, off); }
int64_t offs(const NdArrayRef& a) { return a.offset(); }
int64_t rank(const NdArrayRef& a) { return static_cast<int64_t>(a.shape().size()); }
int64_t dimof(const NdArrayRef& a, int64_t i) { return a.shape()[i]; }
int64_t strideof(const NdArrayRef& a, int64_t i) { return a.strides()[i]; }
int64_t nstrides(const NdArrayRef& a) { return static_cast<int64_t>(a.strides().size()); }
bool samebuf(const NdArrayRef& a, const NdArrayRef& b) { return a.buf().get() == b.buf().get(); }
bool fast(const NdArrayRef& a) { return a.canUseFastIndexing(); }
int64_t faststride(const NdArrayRef& a) { return a.fastIndexingStride(); }
bool compact(const NdArrayRef& a) { return a.isCompact(); }
const std::byte* at(const NdArrayRef& a, int64_t pos) { return &a.at(pos); }
const std::byte* atm(NdArrayRef& a, int64_t pos) { return &a.at(pos); }
const std::byte* ati(const NdArrayRef& a, const Index& pos) { return &a.at(pos); }
const std::byte* atim(NdArrayRef& a, const Index& pos) { return &a.at(pos); }
NdArrayRef slice(const NdArrayRef& a, const Index& b, const Index& e, const Strides& s) { return a.slice(b, e, s); }
NdArrayRef slice1(const NdArrayRef& a, const Index& b, const Index& e) { return a.slice(b, e, Strides()); }
NdArrayRef scalar(const NdArrayRef& a, const Index& b) { return a.slice_scalar_at(b); }
NdArrayRef transpose(const NdArrayRef& a, const Axes& p) { return a.transpose(p); }
NdArrayRef transposed(const NdArrayRef& a) { return a.transpose(); }
NdArrayRef reverse(const NdArrayRef& a, const Axes& p) { return a.reverse(p); }
NdArrayRef broadcast(const NdArrayRef& a, const Shape& s, const Axes& d) { return a.broadcast_to(s, d); }
NdArrayRef as(const NdArrayRef& a, const Type& t) { return a.as(t); }
NdArrayRef reshape(const NdArrayRef& a, const Shape& s) { return a.reshape(s); }
Axes axes(int64_t n, int64_t a, int64_t b, int64_t c) {
  Axes s(n);
  int64_t v[3] = {a, b, c};
  for (int64_t i = 0; i < n; i++) s[i] = v[i];
  return s;
}
struct Step {
  const std::byte* from;
  const std::byte* to;
  bool valid;
};
Step step(const NdArrayRef& a, const Index& pos) {
  NdArrayRef::Iterator it(a, pos);
  Step s;
  s.from = &*it;
  ++it;
  s.valid = !(it == a.cend());
  s.to = static_cast<const std::byte*>(it.getRawPtr());
  return s;
}
const std::byte* stepfrom(const Step& s) { return s.from; }
const std::byte* stepto(const Step& s) { return s.to; }
bool stepvalid(const Step& s) { return s.valid; }
}  // namespace vh
