// Sharing of inputs and reconstruction of outputs, one wrapper per protocol, for calling the real code by name.
#include "libspu/mpc/aby3/io.h"
#include "libspu/mpc/experimental/swift/io.h"
#include "libspu/mpc/experimental/swift/type.h"
#include "libspu/mpc/ref2k/ref2k.h"
#include "libspu/mpc/securenn/io.h"
#include "libspu/mpc/securenn/type.h"
#include "libspu/mpc/semi2k/io.h"
namespace vh {
using namespace spu;
#define IO(nm, C)                                                                                                                                      \
  std::vector<NdArrayRef> to_##nm(FieldType f, size_t n, const NdArrayRef& raw, Visibility v, int owner) { return C(f, n).toShares(raw, v, owner); } \
  NdArrayRef from_##nm(FieldType f, size_t n, const std::vector<NdArrayRef>& s) { return C(f, n).fromShares(s); }                                    \
  Type ty_##nm(FieldType f, size_t n, Visibility v, int owner) { return C(f, n).getShareType(v, owner); }
IO(ref2k, mpc::Ref2kIo)
IO(semi2k, mpc::semi2k::Semi2kIo)
IO(securenn, mpc::securenn::SecurennIo)
IO(aby3, mpc::aby3::Aby3Io)
IO(swift, mpc::swift::SwiftIo)
#undef IO
Visibility vis_pub() { return VIS_PUBLIC; }
Visibility vis_sec() { return VIS_SECRET; }
Type swift_a(FieldType f) { return makeType<mpc::swift::AShrTy>(f); }
Type swift_b(FieldType f, size_t n) { return makeType<mpc::swift::BShrTy>(f, n); }
Type securenn_a2(FieldType f) { return makeType<mpc::securenn::AShrTy>(f); }
Type securenn_b2(FieldType f, size_t n) { return makeType<mpc::securenn::BShrTy>(f, n); }
bool same_ty(const Type& a, const Type& b) { return a == b; }
}  // namespace vh
#include "libspu/core/value.h"
namespace vh {
ValueProto to_proto(const Value& v, size_t m) { return v.toProto(m); }
size_t chunks_count(const Value& v, size_t m) { return v.chunksCount(m); }
Value no_value() { return Value(); }
DataType dt_i32() { return DT_I32; }
}  // namespace vh
