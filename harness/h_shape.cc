// Builds shapes, indices and strides from integers and exposes the header-only operations on them.
#include "libspu/core/shape.h"
namespace vh {
using namespace spu;
Shape sh(int64_t n, int64_t a, int64_t b, int64_t c, int64_t d, int64_t e) {
  Shape s(n);
  int64_t v[5] = {a, b, c, d, e};
  for (int64_t i = 0; i < n; i++) s[i] = v[i];
  return s;
}
Index ix(int64_t n, int64_t a, int64_t b, int64_t c, int64_t d, int64_t e) {
  Index s(n);
  int64_t v[5] = {a, b, c, d, e};
  for (int64_t i = 0; i < n; i++) s[i] = v[i];
  return s;
}
Strides st(int64_t n, int64_t a, int64_t b, int64_t c, int64_t d, int64_t e) {
  Strides s(n);
  int64_t v[5] = {a, b, c, d, e};
  for (int64_t i = 0; i < n; i++) s[i] = v[i];
  return s;
}
int64_t geti(const Index& s, int64_t i) { return s[i]; }
int64_t gets(const Strides& s, int64_t i) { return s[i]; }
int64_t leni(const Index& s) { return static_cast<int64_t>(s.size()); }
int64_t lens(const Strides& s) { return static_cast<int64_t>(s.size()); }
int64_t numel(const Shape& s) { return s.numel(); }
int64_t ndim(const Shape& s) { return s.ndim(); }
int64_t dim(const Shape& s, int64_t i) { return s.dim(i); }
bool isempty(const Shape& s) { return s.isEmpty(); }
bool isscalar(const Shape& s) { return s.isScalar(); }
bool istensor(const Shape& s) { return s.isTensor(); }
bool inb(const Index& i, const Shape& s) { return i.inBounds(s); }
bool bump(const Shape& s, Index& i) {
  return bumpIndices(absl::MakeConstSpan(s.data(), s.size()), absl::MakeSpan(i.data(), i.size()));
}
size_t off(const Index& i, const Shape& s, const Strides& t) { return calcFlattenOffset(i, s, t); }
size_t offc(const Index& i, const Shape& s) { return calcFlattenOffset(i, s, Strides()); }
Strides compact(const Shape& s) { return makeCompactStrides(s); }
int64_t flat(const Index& i, const Shape& s) { return flattenIndex(i, s); }
Index unflat(int64_t x, const Shape& s) { return unflattenIndex(x, s); }
}  // namespace vh
