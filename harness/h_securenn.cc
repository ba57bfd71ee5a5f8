// Type constructors of the three-party assisted protocol, for building shares with the real code.
#include "libspu/mpc/securenn/type.h"
#include "libspu/mpc/common/pv2k.h"
namespace vh {
using namespace spu;
Type securenn_a(FieldType f) { return makeType<mpc::securenn::AShrTy>(f); }
Type securenn_b(FieldType f, size_t n) { return makeType<mpc::securenn::BShrTy>(f, n); }
size_t nbits_of(const Type& t) { return t.as<BShare>()->nbits(); }
bool is_securenn_a(const Type& t) { return t.isa<mpc::securenn::AShrTy>(); }
bool is_securenn_b(const Type& t) { return t.isa<mpc::securenn::BShrTy>(); }
bool is_pub(const Type& t) { return t.isa<mpc::Pub2kTy>(); }
bool is_priv(const Type& t) { return t.isa<mpc::Priv2kTy>(); }
int64_t owner_of(const Type& t) { return t.as<mpc::Priv2kTy>()->owner(); }
}
