#include "libspu/mpc/utils/gfmp.h"
#include "libspu/core/type.h"
namespace vh {
typedef unsigned char u8; typedef unsigned int u32; typedef unsigned long u64; typedef unsigned __int128 u128;
u8 wmul_u8(u8 x, u8 y, u8* z) { return spu::mpc::mul(x, y, z); }
#define G(T) \
  T wmul_##T(T x, T y, T* z) { return spu::mpc::mul(x, y, z); } \
  T mulmod_##T(T x, T y) { return spu::mpc::mul_mod<T>(x, y); } \
  T addmod_##T(T x, T y) { return spu::mpc::add_mod<T>(x, y); } \
  T addinv_##T(T x) { return spu::mpc::add_inv<T>(x); } \
  T modp_##T(T x) { return spu::mpc::mod_p<T>(x); } \
  T mulinv_##T(T x) { return spu::mpc::mul_inv<T>(x); } \
  T expmod_##T(T x, T y) { return spu::mpc::exp_mod<T>(x, y); }
G(u32) G(u64) G(u128)
spu::Type gfmp(spu::FieldType f) { return spu::makeType<spu::GfmpTy>(f); }
}
