#include "arrays.h"
#include "libspu/mpc/utils/gfmp_ops.h"
#include "../harness/h_gfmp.cc"
using namespace vn;
using namespace spu::mpc;
static int EXP(int w) { return w == 32 ? 31 : w == 64 ? 61 : 127; }
static u128 P(int w) { return ((u128)1 << EXP(w)) - 1; }
// schoolbook, bit by bit
static u128 mulm(u128 a, u128 b, u128 p) {
  u128 r = 0;
  a %= p;
  while (b) {
    if (b & 1) { r += a; if (r >= p || r < a) r -= p; }
    a = a >= p - a ? a - (p - a) : a + a;
    b >>= 1;
  }
  return r % p;
}
static u128 powm(u128 a, u128 e, u128 p) {
  u128 r = 1 % p;
  while (e) { if (e & 1) r = mulm(r, a, p); a = mulm(a, a, p); e >>= 1; }
  return r;
}
static u128 elem(int w) {
  u128 p = P(w);
  switch (below(8)) { case 0: return 0; case 1: return 1; case 2: return p - 1; case 3: return p - 2; case 4: return ((u128)1 << below(EXP(w))) % p; default: return edgyw(w) % p; }
}
static void ck(const std::string& op, int w, u128 a, u128 b, u128 got, u128 want) {
  if (got != want) fail(op, op + " (width " + std::to_string(w) + ") of " + hex(a) + ", " + hex(b) + " = " + hex(got) + ", expected " + hex(want));
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (time_left()) {
    for (int it = 0; it < 40; it++) {
#define S(T, w) { vh::T a = (vh::T)elem(w), b = (vh::T)elem(w), v = (vh::T)edgyw(w), z = 0; u128 p = P(w); \
      setcase("field width " + std::to_string(w) + " " + hex(a) + " " + hex(b) + " " + hex(v)); \
      ck("add_mod", w, a, b, vh::addmod_##T(a, b), (a + (u128)b) % p); \
      ck("mul_mod", w, a, b, vh::mulmod_##T(a, b), mulm(a, b, p)); \
      ck("add_inv", w, a, 0, vh::addinv_##T(a) % p, a ? p - a : 0); \
      ck("mod_p", w, v, 0, vh::modp_##T(v), v % p); \
      if (a) ck("mul_inv", w, a, 0, mulm(vh::mulinv_##T(a), a, p), 1); \
      if (a && vh::mulinv_##T(a) >= p) fail("mul_inv", "not reduced for " + hex(a)); \
      vh::T e = below(2) ? v : (vh::T)below(20); \
      ck("exp_mod", w, a, e, vh::expmod_##T(a, e), powm(a, e, p)); \
      vh::T lo = vh::wmul_##T(v, (vh::T)~a, &z); \
      vh::T x = v, y = (vh::T)~a; \
      u128 h; { u128 xl = (u128)x & ~(u128)0 >> 64, xh = (u128)x >> 64, yl = (u128)y & ~(u128)0 >> 64, yh = (u128)y >> 64; u128 t = xl * yl, m1 = xh * yl + (t >> 64), m2 = xl * yh + (uint64_t)m1; h = xh * yh + (m1 >> 64) + (m2 >> 64); } \
      if (lo != (vh::T)(x * y)) ck("wide mul low", w, x, y, lo, (vh::T)(x * y)); \
      u128 hi = w == 128 ? h : ((u128)x * y) >> (w & 127); \
      ck("wide mul high", w, x, y, z, hi); \
      count(std::to_string(w) + hex(a) + hex(b)); }
      S(u32, 32) S(u64, 64) S(u128, 128)
    }
    auto f = rfield();
    int w = width(f);
    u128 p = P(w);
    auto sh = rshape();
    auto ty = makeType<GfmpTy>(f);
    auto x = layout(ty, sh), y = layout(ty, sh);
    for (int64_t i = 0; i < count_of(sh); i++) { put(x, i, w / 8, elem(w)); u128 v = elem(w); put(y, i, w / 8, v ? v : 1); }
    auto a = vals(x, w), b = vals(y, w);
    std::string in = "FM" + std::to_string(w) + " shape=" + shows(sh) + " x=" + showv(a) + " y=" + showv(b);
    struct O { const char* n; NdArrayRef (*f)(const NdArrayRef&, const NdArrayRef&); void (*g)(NdArrayRef&, const NdArrayRef&); std::function<u128(u128, u128)> s; };
    O ops[] = {{"gfmp_add_mod", gfmp_add_mod, gfmp_add_mod_, [&](u128 a, u128 b) { return (a + b) % p; }},
               {"gfmp_sub_mod", gfmp_sub_mod, gfmp_sub_mod_, [&](u128 a, u128 b) { return (a + (p - b)) % p; }},
               {"gfmp_mul_mod", gfmp_mul_mod, gfmp_mul_mod_, [&](u128 a, u128 b) { return mulm(a, b, p); }},
               {"gfmp_div_mod", gfmp_div_mod, gfmp_div_mod_, [&](u128 a, u128 b) { return mulm(a, powm(b, p - 2, p), p); }},
               {"gfmp_exp_mod", gfmp_exp_mod, gfmp_exp_mod_, [&](u128 a, u128 b) { return powm(a, b, p); }}};
    for (auto& o : ops)
      nothrow(o.n, in, [&] {
        auto c = [&](const NdArrayRef& r, const std::string& n) {
          auto v = vals(r, w);
          if (r.shape() != sh) fail(n, n + ": shape changed, " + in);
          for (size_t i = 0; i < v.size(); i++) if (v[i] != o.s(a[i], b[i])) fail(n, n + ": element " + std::to_string(i) + " = " + hex(v[i]) + ", expected " + hex(o.s(a[i], b[i])) + " on " + in);
        };
        c(o.f(x, y), o.n);
        auto x2 = NdArrayRef(ty, sh);
        for (int64_t i = 0; i < count_of(sh); i++) put(x2, i, w / 8, a[i]);
        o.g(x2, y);
        c(x2, std::string(o.n) + "_");
        if (vals(x, w) != a || vals(y, w) != b) fail("frame", std::string(o.n) + ": operand modified, " + in);
        count(std::string(o.n) + in);
      });
    nothrow("gfmp_mod", in, [&] {
      auto v = layout(ty, sh);
      for (int64_t i = 0; i < count_of(sh); i++) put(v, i, w / 8, edgyw(w));
      auto c = vals(v, w), r = vals(gfmp_mod(v), w);
      for (size_t i = 0; i < r.size(); i++) if (r[i] != c[i] % p) fail("gfmp_mod", "gfmp_mod(" + hex(c[i]) + ") = " + hex(r[i]));
      auto z = vals(gfmp_zeros(f, sh), w);
      for (auto q : z) if (q) fail("gfmp_zeros", "gfmp_zeros gives " + hex(q));
    });
  }
  return finish();
}
