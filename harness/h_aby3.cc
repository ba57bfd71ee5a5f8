// Type constructors of the replicated three-party protocol, for building shares with the real code.
#include "libspu/mpc/aby3/type.h"
#include "libspu/mpc/aby3/value.h"
#include "libspu/mpc/common/pv2k.h"
namespace vh {
using namespace spu;
Type aby3_a(FieldType f) { return makeType<mpc::aby3::AShrTy>(f); }
Type aby3_b(PtType p, size_t n) { return makeType<mpc::aby3::BShrTy>(p, n); }
Type ptty(PtType p) { return makeType<PtTy>(p); }
size_t aby3_nbits(const Type& t) { return t.as<mpc::aby3::BShrTy>()->nbits(); }
int aby3_back(const Type& t) { return (int)t.as<mpc::aby3::BShrTy>()->getBacktype(); }
bool is_aby3_a(const Type& t) { return t.isa<mpc::aby3::AShrTy>(); }
bool is_aby3_b(const Type& t) { return t.isa<mpc::aby3::BShrTy>(); }
FieldType aby3_field(const Type& t) { return t.as<mpc::aby3::AShrTy>()->field(); }
}
namespace vh {
spu::PtType pt_u8() { return spu::PT_U8; }
spu::PtType pt_u16() { return spu::PT_U16; }
spu::PtType pt_u32() { return spu::PT_U32; }
spu::PtType pt_u64() { return spu::PT_U64; }
spu::PtType pt_u128() { return spu::PT_U128; }
}
