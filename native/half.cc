#include "common.h"
#include <cmath>
#include <limits>
#include <iostream>
#include <istream>
#include <ostream>
#include "../harness/h_half.cc"
using namespace vn;
typedef long double ld;
typedef uint16_t u16;
static ld val(u16 b) {
  int e = (b >> 10) & 31, m = b & 1023;
  ld v = e == 31 ? (m ? std::numeric_limits<ld>::quiet_NaN() : std::numeric_limits<ld>::infinity()) : e ? ldexpl(1024 + m, e - 25) : ldexpl(m, -24);
  return b >> 15 ? -v : v;
}
// to nearest, ties to even; fegetround is the default
static u16 rnd16(ld x) {
  u16 s = std::signbit(x) ? 0x8000 : 0;
  if (std::isnan(x)) return 0x7e00;
  ld a = fabsl(x);
  if (a >= 65520.0L) return s | 0x7c00;
  int e;
  frexpl(a, &e);                 // a in [2^(e-1), 2^e)
  int q = a == 0 ? -24 : std::max(e - 11, -24);   // units of 2^q
  ld n = rintl(ldexpl(a, -q));
  ld r = ldexpl(n, q);
  if (r == 0) return s;
  frexpl(r, &e);
  if (r >= 65536.0L) return s | 0x7c00;
  if (e - 1 < -14) return s | (u16)ldexpl(r, 24);
  return s | (u16)(((e - 1 + 15) << 10) + ((u16)ldexpl(r, 11 - e) - 1024));
}
static bool nan16(u16 b) { return (b & 0x7fff) > 0x7c00; }
static bool same(u16 a, u16 b) { return (nan16(a) && nan16(b)) || a == b; }
static void ck(const char* op, u16 a, u16 got, u16 want) {
  if (!same(got, want)) fail(op, std::string(op) + "(" + hex(a) + ") = " + hex(got) + ", expected " + hex(want));
}
static void ck1(const char* op, u16 a, u16 got, u16 want) {
  bool near = !nan16(got) && !nan16(want) && ((got ^ want) & 0x8000) == 0 && std::abs((int)got - (int)want) <= 1;
  if (!same(got, want) && !near) fail(op, std::string(op) + "(" + hex(a) + ") = " + hex(got) + ", expected " + hex(want) + " within one unit");
}
static void ck2(const char* op, u16 a, u16 b, u16 got, u16 want) {
  if (!same(got, want)) fail(op, std::string(op) + "(" + hex(a) + ", " + hex(b) + ") = " + hex(got) + ", expected " + hex(want));
}
static void near1(const char* op, u16 a, u16 b, u16 got, u16 want) {
  bool near = !nan16(got) && !nan16(want) && ((got ^ want) & 0x8000) == 0 && std::abs((int)got - (int)want) <= 1;
  if (!near) ck2(op, a, b, got, want);
}
static void ckb(const char* op, u16 a, u16 b, bool got, bool want) {
  if (got != want) fail(op, std::string(op) + "(" + hex(a) + ", " + hex(b) + ") = " + (got ? "true" : "false"));
}
static ld rneabs(ld x) { return rintl(x); }
static u16 half16() {
  switch (below(8)) {
    case 0: { static const u16 e[] = {0, 0x8000, 1, 0x8001, 0x3ff, 0x400, 0x7bff, 0xfbff, 0x7c00, 0xfc00, 0x7e00, 0x7c01, 0x3c00, 0xbc00, 0x3bff, 0x3c01, 0x83ff, 0x8400}; return e[below(sizeof(e) / 2)]; }
    case 1: return (u16)below(0x800) | (u16)(below(2) << 15);
    default: return (u16)rnd();
  }
}
static void pair(u16 a, u16 b) {
  ld x = val(a), y = val(b);
  bool un = nan16(a) || nan16(b);
  ck2("add", a, b, vh::h_add(a, b), rnd16(x + y));
  ck2("sub", a, b, vh::h_sub(a, b), rnd16(x - y));
  ck2("mul", a, b, vh::h_mul(a, b), rnd16(x * y));
  ck2("div", a, b, vh::h_div(a, b), rnd16(x / y));
  ck2("+=", a, b, vh::h_addeq(a, b), rnd16(x + y));
  ck2("-=", a, b, vh::h_subeq(a, b), rnd16(x - y));
  ck2("*=", a, b, vh::h_muleq(a, b), rnd16(x * y));
  ck2("/=", a, b, vh::h_diveq(a, b), rnd16(x / y));
  ckb("==", a, b, vh::h_eq(a, b), x == y);
  ckb("!=", a, b, vh::h_ne(a, b), x != y);
  ckb("<", a, b, vh::h_lt(a, b), x < y);
  ckb(">", a, b, vh::h_gt(a, b), x > y);
  ckb("<=", a, b, vh::h_le(a, b), x <= y);
  ckb(">=", a, b, vh::h_ge(a, b), x >= y);
  ckb("isgreater", a, b, vh::h_isgreater(a, b), x > y);
  ckb("isgreaterequal", a, b, vh::h_isgreaterequal(a, b), x >= y);
  ckb("isless", a, b, vh::h_isless(a, b), x < y);
  ckb("islessequal", a, b, vh::h_islessequal(a, b), x <= y);
  ckb("islessgreater", a, b, vh::h_islessgreater(a, b), !un && x != y);
  ckb("isunordered", a, b, vh::h_isunordered(a, b), un);
  if (vh::h_copysign(a, b) != ((a & 0x7fff) | (b & 0x8000))) ck2("copysign", a, b, vh::h_copysign(a, b), (a & 0x7fff) | (b & 0x8000));
  u16 mx = vh::h_fmax(a, b), mn = vh::h_fmin(a, b);
  if (un) {
    u16 o = nan16(a) ? b : a;
    ck2("fmax", a, b, mx, o);
    ck2("fmin", a, b, mn, o);
  } else {
    if (val(mx) != fmaxl(x, y)) ck2("fmax", a, b, mx, rnd16(fmaxl(x, y)));
    if (val(mn) != fminl(x, y)) ck2("fmin", a, b, mn, rnd16(fminl(x, y)));
  }
  u16 na;
  if (un) na = 0x7e00;
  else if (x == y) na = b;
  else if ((a & 0x7fff) == 0) na = (b & 0x8000) | 1;
  else na = ((x < y) == !(a >> 15)) ? a + 1 : a - 1;
  ck2("nextafter", a, b, vh::h_nextafter(a, b), na);
  ck2("hypot", a, b, vh::h_hypot(a, b), rnd16(hypotl(x, y)));
  near1("pow", a, b, vh::h_pow(a, b), rnd16(powl(x, y)));
  near1("atan2", a, b, vh::h_atan2(a, b), rnd16(atan2l(x, y)));
  ck2("fdim", a, b, vh::h_fdim(a, b), un ? 0x7e00 : x > y ? rnd16(x - y) : 0);
  ck2("fmod", a, b, vh::h_fmod(a, b), rnd16(fmodl(x, y)));
  ck2("remainder", a, b, vh::h_remainder(a, b), rnd16(remainderl(x, y)));
}
int main(int argc, char** argv) {
  init(argc, argv);
  setcase("half unary");
  for (unsigned v = 0; v < 65536; v++) {
    u16 a = (u16)v;
    ld x = val(a);
    setcase("half unary on " + hex(a));
    bool n = nan16(a), inf = (a & 0x7fff) == 0x7c00, zero = (a & 0x7fff) == 0, sub = !zero && (a & 0x7c00) == 0;
    if (vh::h_neg(a) != (u16)(a ^ 0x8000)) ck("neg", a, vh::h_neg(a), a ^ 0x8000);
    if (vh::h_abs(a) != (a & 0x7fff)) ck("abs", a, vh::h_abs(a), a & 0x7fff);
    ckb("isnan", a, a, vh::h_isnan(a), n);
    ckb("isinf", a, a, vh::h_isinf(a), inf);
    ckb("isfinite", a, a, vh::h_isfinite(a), !n && !inf);
    ckb("isnormal", a, a, vh::h_isnormal(a), !n && !inf && !zero && !sub);
    ckb("signbit", a, a, vh::h_signbit(a), a >> 15);
    int cl = n ? FP_NAN : inf ? FP_INFINITE : zero ? FP_ZERO : sub ? FP_SUBNORMAL : FP_NORMAL;
    if (vh::h_fpclassify(a) != cl) fail("fpclassify", "fpclassify(" + hex(a) + ")");
    float f = vh::h_to_float(a);
    ld f2 = vh::h_castto_float(a), f3 = vh::h_castto_double(a);
    for (ld g : {(ld)f, f2, f3})
      if (n ? !std::isnan(g) : (g != x || std::signbit(g) != (a >> 15))) fail("to_float", "conversion of " + hex(a) + " to float/double gives another value");
    ck("round trip", a, vh::h_from_float(f), a);
    ck("ceil", a, vh::h_ceil(a), rnd16(ceill(x)));
    ck("floor", a, vh::h_floor(a), rnd16(floorl(x)));
    ck("trunc", a, vh::h_trunc(a), rnd16(truncl(x)));
    ck("round", a, vh::h_round(a), rnd16(roundl(x)));
    ck("rint", a, vh::h_rint(a), rnd16(rneabs(x)));
    ck("nearbyint", a, vh::h_nearbyint(a), rnd16(rneabs(x)));
    ck("sqrt", a, vh::h_sqrt(a), rnd16(sqrtl(x)));
    ck("++", a, vh::h_inc(a), rnd16(x + 1));
    ck("--", a, vh::h_dec(a), rnd16(x - 1));
    if (!n && !inf) {
      if (vh::h_lround(a) != (long)roundl(x)) fail("lround", "lround(" + hex(a) + ") = " + std::to_string(vh::h_lround(a)));
      if (vh::h_lrint(a) != (long)rneabs(x)) fail("lrint", "lrint(" + hex(a) + ") = " + std::to_string(vh::h_lrint(a)));
      if (vh::h_castto_i32(a) != (int)rneabs(x)) fail("half_cast<int>", "half_cast<int>(" + hex(a) + ") = " + std::to_string(vh::h_castto_i32(a)));
      if (vh::h_castto_i64(a) != (long)rneabs(x)) fail("half_cast<long>", "half_cast<long>(" + hex(a) + ") = " + std::to_string(vh::h_castto_i64(a)));
    }
    // every conversion from an integer of this width
    ck("half_cast(short)", a, vh::h_cast_i16((short)v), rnd16((ld)(short)v));
    ck("half_cast(unsigned short)", a, vh::h_cast_u16(a), rnd16((ld)a));
    ck("half_cast(char)", a, vh::h_cast_i8((signed char)v), rnd16((ld)(signed char)v));
    ck("half_cast(unsigned char)", a, vh::h_cast_u8((unsigned char)v), rnd16((ld)(unsigned char)v));
    // elementary functions
#define EL1(name, ref) ck1(#name, a, vh::h_##name(a), rnd16(ref))   // documented as at most one unit off
#define EL(name, ref) ck(#name, a, vh::h_##name(a), rnd16(ref))
    EL(exp, expl(x)); EL(exp2, exp2l(x)); EL1(expm1, expm1l(x)); EL(log, logl(x)); EL(log2, log2l(x)); EL(log10, log10l(x)); EL1(log1p, log1pl(x));
    EL(rsqrt, 1 / sqrtl(x)); EL(cbrt, cbrtl(x)); EL(sin, sinl(x)); EL(cos, cosl(x)); EL(tan, tanl(x)); EL(asin, asinl(x)); EL(acos, acosl(x)); EL(atan, atanl(x));
    EL(sinh, sinhl(x)); EL(cosh, coshl(x)); EL(tanh, tanhl(x)); EL(asinh, asinhl(x)); EL(acosh, acoshl(x)); EL(atanh, atanhl(x));
    EL1(erf, erfl(x)); EL1(erfc, erfcl(x)); EL1(lgamma, lgammal(x)); EL1(tgamma, (a == 0xfc00 ? val(0x7e00) : tgammal(x)));
    count("unary " + hex(a));
  }
  static const u16 lim[] = {0x0400, 0xfbff, 0x7bff, 0x1400, 0x3800, 0x7c00, 0x7e00, 0x0001, 0x0000};
  for (int k = 0; k < 9; k++) ck("numeric_limits", k, vh::h_lim(k), lim[k]);
  auto ints = [&](unsigned long u) {
    long s = (long)u;
    setcase("half_cast from integer " + hex(u));
    auto c = [&](const char* t, u16 got, ld v) { if (got != rnd16(v)) fail(std::string("half_cast(") + t + ")", std::string("half_cast<half>(") + t + " " + std::to_string((long long)v) + ") = " + hex(got) + ", expected " + hex(rnd16(v))); };
    c("int", vh::h_cast_i32((int)s), (int)s);
    c("unsigned", vh::h_cast_u32((unsigned)u), (unsigned)u);
    c("long", vh::h_cast_i64(s), s);
    c("unsigned long", vh::h_cast_u64(u), u);
  };
  for (long v = -140000; v <= 140000; v++) ints((unsigned long)v);
  for (int k = 0; k < 64; k++) for (long d = -3; d <= 3; d++) { ints((1ul << k) + d); ints(-(1ul << k) + d); }
  while (time_left()) {
    for (int r = 0; r < 2000; r++) {
      u16 a = half16(), b = below(8) ? half16() : (u16)(a + below(5) - 2), c = half16();
      setcase("half pair " + hex(a) + " " + hex(b) + " " + hex(c));
      pair(a, b);
      ld x = val(a), y = val(b), z = val(c);
      u16 fw = rnd16(fmal(x, y, z));
      if (!same(vh::h_fma(a, b, c), fw)) fail("fma", "fma(" + hex(a) + "," + hex(b) + "," + hex(c) + ") = " + hex(vh::h_fma(a, b, c)) + ", expected " + hex(fw));
      uint32_t fb = (uint32_t)rnd();
      switch (below(4)) {
        case 0: fb = (fb & 0x80000000u) | (uint32_t)((100 + below(46)) << 23) | (fb & 0x7fffff); break;
        case 1: fb = (fb & 0x80000000u) | (uint32_t)((100 + below(46)) << 23) | (uint32_t)(below(1024) << 13) | (below(2) ? 0x1000 : 0) | (uint32_t)(below(3) - 1); break;
        case 2: fb = (fb & 0x80000000u) | (uint32_t)((100 + below(46)) << 23) | ((1u << below(24)) - 1); break;
      }
      float f;
      memcpy(&f, &fb, 4);
      setcase("float to half " + hex(fb));
      auto cf = [&](const char* nm, u16 got, ld v, uint64_t bits) { if (!same(got, rnd16(v)) || (nan16(got) && (got >> 15) != (int)std::signbit(v))) fail(nm, std::string(nm) + " of bits " + hex(bits) + " = " + hex(got) + ", expected " + hex(rnd16(v))); };
      cf("half(float)", vh::h_from_float(f), f, fb);
      cf("half=float", vh::h_assign_float(f), f, fb);
      cf("half_cast(float)", vh::h_cast_float(f), f, fb);
      uint64_t db = rnd();
      switch (below(3)) {
        case 0: db = (db & (1ull << 63)) | ((uint64_t)(1000 + below(40)) << 52) | (db & ((1ull << 52) - 1)); break;
        case 1: db = (db & (1ull << 63)) | ((uint64_t)(996 + below(46)) << 52) | ((uint64_t)below(1024) << 42) | (below(2) ? 1ull << 41 : 0) | (below(3) ? 0 : 1); break;
      }
      double d;
      memcpy(&d, &db, 8);
      setcase("double to half " + hex(db));
      cf("half_cast(double)", vh::h_cast_double(d), d, db);
      count(hex(a) + " " + hex(b) + " " + hex(fb));
    }
  }
  return finish();
}
