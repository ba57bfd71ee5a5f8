// Type constructors of the n-party additive protocol, for building shares with the real code.
#include "libspu/mpc/semi2k/type.h"
#include "libspu/mpc/common/pv2k.h"
namespace vh {
using namespace spu;
Type semi2k_a(FieldType f) { return makeType<mpc::semi2k::AShrTy>(f); }
Type semi2k_b(FieldType f, size_t n) { return makeType<mpc::semi2k::BShrTy>(f, n); }
Type semi2k_bfull(FieldType f) { return makeType<mpc::semi2k::BShrTy>(f); }
size_t nbits_of(const Type& t) { return t.as<BShare>()->nbits(); }
bool is_semi2k_a(const Type& t) { return t.isa<mpc::semi2k::AShrTy>(); }
bool is_semi2k_b(const Type& t) { return t.isa<mpc::semi2k::BShrTy>(); }
bool is_pub(const Type& t) { return t.isa<mpc::Pub2kTy>(); }
bool is_priv(const Type& t) { return t.isa<mpc::Priv2kTy>(); }
int64_t owner_of(const Type& t) { return t.as<mpc::Priv2kTy>()->owner(); }
}
