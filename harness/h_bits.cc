// Instantiates the bit helpers at every unsigned width.
#include "libspu/core/bit_utils.h"
namespace vh {
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64; typedef unsigned __int128 u128;
int log2floor(u64 n) { return spu::Log2Floor(n); }
int log2ceil(u64 n) { return spu::Log2Ceil(n); }
#define W(T) \
  u64 width_##T(const T& v) { return spu::BitWidth<T>(v); } \
  T deintl_##T(T v, long stride, long nbits) { return spu::BitDeintl<T>(v, stride, nbits); } \
  T intl_##T(T v, long stride, long nbits) { return spu::BitIntl<T>(v, stride, nbits); } \
  T deintl0_##T(T v, long stride) { return spu::BitDeintl<T>(v, stride); } \
  T intl0_##T(T v, long stride) { return spu::BitIntl<T>(v, stride); }
W(u8) W(u16) W(u32) W(u64) W(u128)
u64 deintl_pdep(u64 v, long stride) { return spu::detail::BitDeintlWithPdepext(v, stride); }
u64 intl_pdep(u64 v, long stride) { return spu::detail::BitIntlWithPdepext(v, stride); }
}
