// Every type class of the runtime, reachable by one name each; parsing goes through the real registry.
#include "libspu/core/type.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/aby3/type.h"
#include "libspu/mpc/semi2k/type.h"
#include "libspu/mpc/securenn/type.h"
#include "libspu/mpc/spdz2k/type.h"
#include "libspu/mpc/cheetah/type.h"
#include "libspu/mpc/experimental/swift/type.h"
namespace vt {
using namespace spu;
using namespace spu::mpc;
void reg() {
  regPV2kTypes();
  aby3::registerTypes();
  semi2k::registerTypes();
  securenn::registerTypes();
  spdz2k::registerTypes();
  cheetah::registerTypes();
  swift::registerTypes();
}
Type parse(std::string_view s) { return Type::fromString(s); }
std::string show(const Type& t) { return t.toString(); }
bool same(const Type& a, const Type& b) { return a == b; }
bool differ(const Type& a, const Type& b) { return a != b; }
size_t sizeoft(const Type& t) { return t.size(); }
Type copyof(const Type& t) { return Type(t); }
void assign(Type& a, const Type& b) { a = b; }
Type mk_Void() { return Type(); }
Type mk_Pt(PtType p) { return makeType<PtTy>(p); }
#define F1(N, C) Type mk_##N(FieldType f) { return makeType<C>(f); } bool isa_##N(const Type& t) { return t.isa<C>(); } void as_##N(const Type& t) { t.as<C>(); }
#define FN(N, C) Type mk_##N(FieldType f, size_t n) { return makeType<C>(f, n); } Type mkd_##N(FieldType f) { return makeType<C>(f); } bool isa_##N(const Type& t) { return t.isa<C>(); } void as_##N(const Type& t) { t.as<C>(); }
#define F0(N, C) Type mk_##N() { return makeType<C>(); } bool isa_##N(const Type& t) { return t.isa<C>(); } void as_##N(const Type& t) { t.as<C>(); }
#define ISA(N, C) bool isa_##N(const Type& t) { return t.isa<C>(); } void as_##N(const Type& t) { t.as<C>(); }
ISA(Void, VoidTy) ISA(Pt, PtTy)
F1(Ring, RingTy) F1(Gfmp, GfmpTy) F1(Pub, Pub2kTy)
Type mk_Priv(FieldType f, int64_t o) { return makeType<Priv2kTy>(f, o); } ISA(Priv, Priv2kTy)
F1(aby3_A, aby3::AShrTy) F1(aby3_O, aby3::OShrTy) F1(aby3_OP, aby3::OPShrTy) F0(aby3_P, aby3::PShrTy)
Type mk_aby3_B(PtType p, size_t n) { return makeType<aby3::BShrTy>(p, n); } ISA(aby3_B, aby3::BShrTy)
F1(semi2k_A, semi2k::AShrTy) FN(semi2k_B, semi2k::BShrTy) F0(semi2k_P, semi2k::PShrTy)
F1(securenn_A, securenn::AShrTy) FN(securenn_B, securenn::BShrTy)
F1(spdz2k_A, spdz2k::AShrTy) Type mk_spdz2k_B(PtType p, size_t n, FieldType f) { return makeType<spdz2k::BShrTy>(p, n, f); } ISA(spdz2k_B, spdz2k::BShrTy)
F1(cheetah_A, cheetah::AShrTy) FN(cheetah_B, cheetah::BShrTy) F0(cheetah_P, cheetah::PShrTy)
F1(swift_A, swift::AShrTy) FN(swift_B, swift::BShrTy) F0(swift_P, swift::PShrTy)
ISA(iRing2k, Ring2k) ISA(iGfp, Gfp) ISA(iPublic, Public) ISA(iSecret, Secret) ISA(iPrivate, Private) ISA(iAShare, AShare) ISA(iOShare, OShare) ISA(iOPShare, OPShare) ISA(iBShare, BShare) ISA(iPShare, PShare) ISA(iRingTy, RingTy)
FieldType get_field(const Type& t) { return t.as<Ring2k>()->field(); }
size_t get_nbits(const Type& t) { return t.as<BShare>()->nbits(); }
void set_nbits(Type& t, size_t n) { t.as<BShare>()->setNbits(n); }
int64_t get_owner(const Type& t) { return t.as<Private>()->owner(); }
PtType get_pt(const Type& t) { return t.as<PtTy>()->pt_type(); }
PtType get_back_aby3(const Type& t) { return t.as<aby3::BShrTy>()->getBacktype(); }
PtType get_back_spdz(const Type& t) { return t.as<spdz2k::BShrTy>()->getBacktype(); }
size_t get_k(const Type& t) { return t.as<spdz2k::BShrTy>()->k(); }
uint128_t get_p(const Type& t) { return t.as<GfmpTy>()->p(); }
size_t get_exp(const Type& t) { return t.as<GfmpTy>()->mp_exp(); }
bool floatty(const Type& t) { return isFloatTy(t); }
bool intty(const Type& t) { return isIntTy(t); }
}
