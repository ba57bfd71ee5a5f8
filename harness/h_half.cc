// Entry points on bit patterns for the half-precision operations.
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <istream>
#include <limits>
#include <ostream>
#include <type_traits>
#define private public
#include "libspu/core/half.h"
#undef private
namespace vh {
using half_float::half;
typedef unsigned short u16;
half H(u16 b) { return half(half_float::detail::binary, b); }
u16 h_add(u16 a, u16 b) { return (H(a) + H(b)).data_; }
u16 h_sub(u16 a, u16 b) { return (H(a) - H(b)).data_; }
u16 h_mul(u16 a, u16 b) { return (H(a) * H(b)).data_; }
u16 h_div(u16 a, u16 b) { return (H(a) / H(b)).data_; }
u16 h_neg(u16 a) { return (-H(a)).data_; }
u16 h_abs(u16 a) { return abs(H(a)).data_; }
bool h_eq(u16 a, u16 b) { return H(a) == H(b); }
bool h_ne(u16 a, u16 b) { return H(a) != H(b); }
bool h_lt(u16 a, u16 b) { return H(a) < H(b); }
bool h_gt(u16 a, u16 b) { return H(a) > H(b); }
bool h_le(u16 a, u16 b) { return H(a) <= H(b); }
bool h_ge(u16 a, u16 b) { return H(a) >= H(b); }
bool h_isgreater(u16 a, u16 b) { return isgreater(H(a), H(b)); }
bool h_isgreaterequal(u16 a, u16 b) { return isgreaterequal(H(a), H(b)); }
bool h_isless(u16 a, u16 b) { return isless(H(a), H(b)); }
bool h_islessequal(u16 a, u16 b) { return islessequal(H(a), H(b)); }
bool h_islessgreater(u16 a, u16 b) { return islessgreater(H(a), H(b)); }
bool h_isunordered(u16 a, u16 b) { return isunordered(H(a), H(b)); }
bool h_isnan(u16 a) { return isnan(H(a)); }
bool h_isinf(u16 a) { return isinf(H(a)); }
bool h_isfinite(u16 a) { return isfinite(H(a)); }
bool h_isnormal(u16 a) { return isnormal(H(a)); }
bool h_signbit(u16 a) { return signbit(H(a)); }
int h_fpclassify(u16 a) { return fpclassify(H(a)); }
u16 h_copysign(u16 a, u16 b) { return copysign(H(a), H(b)).data_; }
u16 h_fmax(u16 a, u16 b) { return fmax(H(a), H(b)).data_; }
u16 h_fmin(u16 a, u16 b) { return fmin(H(a), H(b)).data_; }
u16 h_from_float(float f) { return half(f).data_; }
u16 h_assign_float(float f) { half h; h = f; return h.data_; }
u16 h_cast_float(float f) { return half_float::half_cast<half>(f).data_; }
u16 h_cast_double(double f) { return half_float::half_cast<half>(f).data_; }
float h_to_float(u16 a) { return static_cast<float>(H(a)); }
float h_castto_float(u16 a) { return half_float::half_cast<float>(H(a)); }
double h_castto_double(u16 a) { return half_float::half_cast<double>(H(a)); }
u16 h_cast_i8(signed char v) { return half_float::half_cast<half>(v).data_; }
u16 h_cast_u8(unsigned char v) { return half_float::half_cast<half>(v).data_; }
u16 h_cast_i16(short v) { return half_float::half_cast<half>(v).data_; }
u16 h_cast_u16(u16 v) { return half_float::half_cast<half>(v).data_; }
u16 h_cast_i32(int v) { return half_float::half_cast<half>(v).data_; }
u16 h_cast_u32(unsigned v) { return half_float::half_cast<half>(v).data_; }
u16 h_cast_i64(long v) { return half_float::half_cast<half>(v).data_; }
u16 h_cast_u64(unsigned long v) { return half_float::half_cast<half>(v).data_; }
int h_castto_i32(u16 a) { return half_float::half_cast<int>(H(a)); }
long h_castto_i64(u16 a) { return half_float::half_cast<long>(H(a)); }
u16 h_ceil(u16 a) { return ceil(H(a)).data_; }
u16 h_floor(u16 a) { return floor(H(a)).data_; }
u16 h_trunc(u16 a) { return trunc(H(a)).data_; }
u16 h_round(u16 a) { return round(H(a)).data_; }
u16 h_rint(u16 a) { return rint(H(a)).data_; }
u16 h_nearbyint(u16 a) { return nearbyint(H(a)).data_; }
long h_lround(u16 a) { return lround(H(a)); }
long h_lrint(u16 a) { return lrint(H(a)); }
u16 h_sqrt(u16 a) { return sqrt(H(a)).data_; }
u16 h_fma(u16 a, u16 b, u16 c) { return fma(H(a), H(b), H(c)).data_; }
u16 h_addeq(u16 a, u16 b) { half x = H(a); x += H(b); return x.data_; }
u16 h_subeq(u16 a, u16 b) { half x = H(a); x -= H(b); return x.data_; }
u16 h_muleq(u16 a, u16 b) { half x = H(a); x *= H(b); return x.data_; }
u16 h_diveq(u16 a, u16 b) { half x = H(a); x /= H(b); return x.data_; }
u16 h_inc(u16 a) { half x = H(a); ++x; return x.data_; }
u16 h_dec(u16 a) { half x = H(a); --x; return x.data_; }
u16 h_nextafter(u16 a, u16 b) { return nextafter(H(a), H(b)).data_; }
u16 h_exp(u16 a) { return exp(H(a)).data_; }
u16 h_exp2(u16 a) { return exp2(H(a)).data_; }
u16 h_expm1(u16 a) { return expm1(H(a)).data_; }
u16 h_log(u16 a) { return log(H(a)).data_; }
u16 h_log2(u16 a) { return log2(H(a)).data_; }
u16 h_log10(u16 a) { return log10(H(a)).data_; }
u16 h_log1p(u16 a) { return log1p(H(a)).data_; }
u16 h_rsqrt(u16 a) { return rsqrt(H(a)).data_; }
u16 h_cbrt(u16 a) { return cbrt(H(a)).data_; }
u16 h_sin(u16 a) { return sin(H(a)).data_; }
u16 h_cos(u16 a) { return cos(H(a)).data_; }
u16 h_tan(u16 a) { return tan(H(a)).data_; }
u16 h_asin(u16 a) { return asin(H(a)).data_; }
u16 h_acos(u16 a) { return acos(H(a)).data_; }
u16 h_atan(u16 a) { return atan(H(a)).data_; }
u16 h_sinh(u16 a) { return sinh(H(a)).data_; }
u16 h_cosh(u16 a) { return cosh(H(a)).data_; }
u16 h_tanh(u16 a) { return tanh(H(a)).data_; }
u16 h_asinh(u16 a) { return asinh(H(a)).data_; }
u16 h_acosh(u16 a) { return acosh(H(a)).data_; }
u16 h_atanh(u16 a) { return atanh(H(a)).data_; }
u16 h_erf(u16 a) { return erf(H(a)).data_; }
u16 h_erfc(u16 a) { return erfc(H(a)).data_; }
u16 h_lgamma(u16 a) { return lgamma(H(a)).data_; }
u16 h_tgamma(u16 a) { return tgamma(H(a)).data_; }
u16 h_fdim(u16 a, u16 b) { return fdim(H(a), H(b)).data_; }
u16 h_fmod(u16 a, u16 b) { return fmod(H(a), H(b)).data_; }
u16 h_remainder(u16 a, u16 b) { return remainder(H(a), H(b)).data_; }
u16 h_hypot(u16 a, u16 b) { return hypot(H(a), H(b)).data_; }
u16 h_pow(u16 a, u16 b) { return pow(H(a), H(b)).data_; }
u16 h_atan2(u16 a, u16 b) { return atan2(H(a), H(b)).data_; }
u16 h_lim(int k) {
  typedef std::numeric_limits<half> L;
  switch (k) {
    case 0: return L::min().data_;
    case 1: return L::lowest().data_;
    case 2: return L::max().data_;
    case 3: return L::epsilon().data_;
    case 4: return L::round_error().data_;
    case 5: return L::infinity().data_;
    case 6: return L::quiet_NaN().data_;
    case 7: return L::denorm_min().data_;
    default: return half().data_;
  }
}
}
