// Instantiates type constructors and ring primitives so that the verifier can build inputs with the real code.
#include "libspu/core/type.h"
#include "libspu/core/ndarray_ref.h"
#include "libspu/mpc/common/pv2k.h"
namespace vh {
spu::Type ring(spu::FieldType f) { return spu::makeType<spu::RingTy>(f); }
spu::Type pubring(spu::FieldType f) { return spu::makeType<spu::mpc::Pub2kTy>(f); }
spu::Type privring(spu::FieldType f, int64_t owner) { return spu::makeType<spu::mpc::Priv2kTy>(f, owner); }
spu::Type pt(spu::PtType p) { return spu::makePtType(p); }
spu::FieldType fieldof(const spu::Type& t) { return t.as<spu::Ring2k>()->field(); }
bool sametype(const spu::Type& a, const spu::Type& b) { return a == b; }
size_t sizeoft(const spu::Type& a) { return a.size(); }
}
namespace vh {
spu::Type gfmp(spu::FieldType f) { return spu::makeType<spu::GfmpTy>(f); }
bool isgf(const spu::Type& t) { return t.isa<spu::GfmpTy>(); }
}
