#include "common.h"
#include "libspu/core/shape.h"
using namespace vn;
using namespace spu;
static std::string str(const std::vector<int64_t>& v) { std::string s; for (auto x : v) s += std::to_string(x) + ","; return "(" + s + ")"; }
int main(int argc, char** argv) {
  init(argc, argv);
  while (time_left()) {
    int64_t n = below(6);
    std::vector<i128> stx(n + 1, 1);
    Shape s(n);
    bool big = below(4) == 0;
    i128 total = 1;
    for (auto& d : s) {
      d = big ? (int64_t)(rnd() >> (64 - 1 - below(14))) : (int64_t)below(6);
      if (below(4) == 0) d = 1;
      if (below(12) == 0) d = 0;
      total *= d;
    }
    if (total > ((i128)1 << 61)) continue;
    std::string id = str(s);
    setcase(id);
    count(id);
    bool zero = false;
    for (auto d : s) zero |= d == 0;
    std::vector<i128> full(n);
    i128 p = 1;
    for (int64_t k = n - 1; k >= 0; k--) { full[k] = p; p *= s[k]; }
    if (s.numel() != (int64_t)total) fail("numel", id);
    if (s.isEmpty() != zero) fail("isEmpty", id);
    if (s.ndim() != n || s.isScalar() != (n == 0) || s.isTensor() != (n != 0)) fail("ndim", id);
    for (int64_t k = 0; k < n; k++) if (s.dim(k) != s[k]) fail("dim", id);
    try { s.dim(n); fail("dim-range", id); } catch (...) {}
    auto cs = makeCompactStrides(s);
    if ((int64_t)cs.size() != n) fail("strides-rank", id);
    for (int64_t k = 0; k < n; k++) if (cs[k] != (s[k] == 1 ? 0 : (int64_t)full[k])) fail("strides", id + " -> " + str(cs));
    Index out(n);
    for (int64_t k = 0; k < n; k++) out[k] = (int64_t)below(s[k] + 2) - (below(8) == 0);
    bool in = true;
    for (int64_t k = 0; k < n; k++) in &= out[k] >= 0 && out[k] < s[k];
    if (out.inBounds(s) != in) fail("inBounds", id + " index " + str(out));
    Index longer = out;
    longer.push_back(0);
    if (longer.inBounds(s)) fail("inBounds-rank", id);
    if (zero) continue;
    for (int rep = 0; rep < 6; rep++) {
      Index x(n);
      i128 pos = 0;
      bool last = true;
      for (int64_t k = 0; k < n; k++) {
        x[k] = below(3) ? (int64_t)below(s[k]) : s[k] - 1;
        pos += (i128)x[k] * full[k];
        last &= x[k] == s[k] - 1;
      }
      std::string w = id + " index " + str(x);
      if (flattenIndex(x, s) != (int64_t)pos) fail("flattenIndex", w);
      if (unflattenIndex((int64_t)pos, s) != x) fail("unflattenIndex", w + " -> " + str(unflattenIndex((int64_t)pos, s)));
      if (calcFlattenOffset(x, s, cs) != (uint64_t)pos || calcFlattenOffset(x, s, Strides()) != (uint64_t)pos) fail("calcFlattenOffset", w);
      Strides t(n);
      i128 off = 0;
      for (int64_t k = 0; k < n; k++) { t[k] = (int64_t)below(1 << 20) - (1 << 19); off += (i128)x[k] * t[k]; }
      if ((int64_t)calcFlattenOffset(x, s, t) != (int64_t)off) fail("calcFlattenOffset-strides", w + " strides " + str(t));
      Index y = x;
      bool r = bumpIndices(absl::MakeConstSpan(s.data(), s.size()), absl::MakeSpan(y.data(), y.size()));
      if (r == last) fail("bumpIndices-end", w);
      Index z = x;
      if (!last) { i128 q = pos + 1; for (int64_t k = n - 1; k >= 0; k--) { z[k] = (int64_t)(q % s[k]); q /= s[k]; } }
      if (y != z) fail("bumpIndices", w + " -> " + str(y));
    }
  }
  return finish();
}
