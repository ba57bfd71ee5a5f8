// Enumerators of plaintext and data types, by name.
#include "libspu/core/encoding.h"
#include "libspu/core/type_util.h"
namespace vh {
#define E(N) spu::PtType e_PT_##N() { return spu::PT_##N; } spu::DataType e_DT_##N() { return spu::DT_##N; }
E(I8) E(U8) E(I16) E(U16) E(I32) E(U32) E(I64) E(U64) E(I1) E(F16) E(F32) E(F64)
}
