// Values through their wire form and back; inputs shared by each protocol and reconstructed.
#include <cmath>
#include "arrays.h"
#include "libspu/core/value.h"
#include "libspu/device/io.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/factory.h"
#include "../harness/h_io.cc"
#include "libspu/mpc/aby3/type.h"
#include "libspu/mpc/semi2k/type.h"
using namespace vn;
using namespace spu;
namespace spu::kernel::hal { NdArrayRef dump_public(SPUContext*, const Value&) { abort(); } }
namespace spu::mpc {
std::unique_ptr<IoInterface> Factory::CreateIO(const RuntimeConfig& c, size_t n) {
  switch (c.protocol) {
    case ProtocolKind::REF2K: return makeRef2kIo(c.field, n);
    case ProtocolKind::SEMI2K: return semi2k::makeSemi2kIo(c.field, n);
    case ProtocolKind::ABY3: return aby3::makeAby3Io(c.field, n);
    case ProtocolKind::SECURENN: return securenn::makeSecurennIo(c.field, n);
    default: return swift::makeSwiftIo(c.field, n);
  }
}
}  // namespace spu::mpc

static NdArrayRef rdata(const Type& ty, Shape sh) {
  auto a = layout(ty, sh);
  int64_t n = count_of(sh), sz = ty.size();
  for (int64_t i = 0; i < n; i++) for (int64_t k = 0; k < sz; k++) { auto b = (uint8_t)rnd(); memcpy(addr(a, i) + k, &b, 1); }
  return a;
}
static bool same(const NdArrayRef& a, const NdArrayRef& b) {
  if (a.shape() != b.shape() || a.eltype() != b.eltype()) return false;
  int64_t n = count_of(a.shape()), sz = a.elsize();
  for (int64_t i = 0; i < n; i++) if (memcmp(addr(a, i), addr(b, i), sz)) return false;
  return true;
}
static Type rtype() {
  auto f = rfield(); int w = width(f);
  static const PtType pts[] = {PT_U8, PT_U16, PT_U32, PT_U64, PT_U128};
  switch (below(9)) {
    case 0: return makeType<mpc::Pub2kTy>(f);
    case 1: return makeType<mpc::Priv2kTy>(f, (int64_t)below(3));
    case 2: return makeType<mpc::semi2k::AShrTy>(f);
    case 3: return makeType<mpc::semi2k::BShrTy>(f, below(w + 1));
    case 4: return makeType<mpc::aby3::AShrTy>(f);
    case 5: { int k = (int)below(5); return makeType<mpc::aby3::BShrTy>(pts[k], below((8u << k) + 1)); }
    case 6: return makeType<mpc::swift::AShrTy>(f);
    case 7: return makeType<mpc::securenn::AShrTy>(f);
    default: return mpc::makeRef2kIo(f, 2)->getShareType(VIS_SECRET);
  }
}
static Shape vshape() {
  if (below(6)) return rshape();
  switch (below(3)) { case 0: return {0}; case 1: return {2, 0}; default: return {0, 3}; }
}
static void wire() {
  auto ty = rtype(); auto sh = vshape();
  bool cx = below(3) == 0;
  auto d = rdata(ty, sh); NdArrayRef im = cx ? rdata(ty, sh) : d;
  auto dt = cx ? (below(2) ? DT_F32 : DT_F64) : (DataType)(1 + below(12));
  uint64_t total = (uint64_t)count_of(sh) * ty.size(), mx;
  switch (below(8)) {
    case 0: mx = 1; break;
    case 1: mx = total ? total : 1; break;
    case 2: mx = total + 1; break;
    case 3: mx = total > 1 ? total - 1 : 1; break;
    case 4: mx = ~(uint64_t)0 - below(3); break;
    case 5: mx = (uint64_t)1 << below(64); break;
    default: mx = 1 + below(total + 4);
  }
  Value v = cx ? Value(d, im, dt) : Value(d, dt);
  std::ostringstream os;
  os << ty.toString() << ", shape " << shows(sh) << ", strides " << shows(Shape(d.strides().begin(), d.strides().end())) << (cx ? ", complex" : "") << ", chunks of at most " << mx << " bytes";
  auto id = os.str();
  setcase(id);
  count(id);
  try {
    auto p = v.toProto(mx);
    uint64_t want = total == 0 ? 0 : total / mx + (total % mx != 0);
    if (p.chunks.size() != (cx ? 2 : 1) * want) fail("chunk count", id + ": " + std::to_string(p.chunks.size()) + " chunks");
    if (v.chunksCount(mx) != want) fail("chunksCount", id + ": " + std::to_string(v.chunksCount(mx)) + " instead of " + std::to_string(want));
    for (size_t k = 0; k < p.chunks.size(); k++) {
      auto& c = p.chunks[k];
      if (c.content().size() > mx || c.content().empty() || c.total_bytes() != total || c.chunk_offset() >= total) { fail("chunk", id + ": chunk " + std::to_string(k)); break; }
    }
    // through bytes
    ValueProto q;
    if (!q.meta.ParseFromString(p.meta.SerializeAsString())) fail("meta", id);
    for (auto& c : p.chunks) { q.chunks.emplace_back(); if (!q.chunks.back().ParseFromString(c.SerializeAsString())) fail("chunk bytes", id); }
    if (!cx && below(2)) for (size_t i = q.chunks.size(); i > 1; i--) std::swap(q.chunks[i - 1], q.chunks[below(i)]);
    auto u = Value::fromProto(q);
    if (u.isComplex() != cx || u.dtype() != dt || u.vtype() != v.vtype() || u.storage_type() != ty || u.shape() != sh || u.owner() != v.owner()) fail("type", id + ": shape, type or visibility changed");
    else if (!same(u.data(), d) || (cx && !same(*u.imag(), im))) fail("content", id + ": an element changed");
    if (!cx && !q.chunks.empty()) {
      auto r = q; auto k = below(r.chunks.size());
      bool dup = below(2);
      if (dup) r.chunks.push_back(r.chunks[k]); else r.chunks.erase(r.chunks.begin() + k);
      bool ok = false;
      try { Value::fromProto(r); } catch (const std::exception&) { ok = true; }
      if (!ok) fail("reject", id + ": accepted with chunk " + std::to_string(k) + (dup ? " twice" : " missing"));
    }
  } catch (const std::exception& e) { fail("raise", id + ": " + e.what()); }
}
static NdArrayRef view(const NdArrayRef& a) {  // same elements, another layout
  auto b = layout(a.eltype(), a.shape(), true);
  int64_t n = count_of(a.shape());
  for (int64_t i = 0; i < n; i++) memcpy(addr(b, i), addr(a, i), a.elsize());
  return b;
}
static void share(int pr) {
  static const char* nm[] = {"ref2k", "semi2k", "securenn", "aby3", "swift"};
  auto f = rfield(); int w = width(f), by = w / 8;
  size_t n = pr == 0 || pr == 1 ? 2 + below(3) : 3;
  std::unique_ptr<mpc::IoInterface> io;
  switch (pr) {
    case 0: io = mpc::makeRef2kIo(f, n); break;
    case 1: io = mpc::semi2k::makeSemi2kIo(f, n); break;
    case 2: io = mpc::securenn::makeSecurennIo(f, n); break;
    case 3: io = mpc::aby3::makeAby3Io(f, n); break;
    default: io = mpc::swift::makeSwiftIo(f, n);
  }
  auto sh = rshape(); auto raw = rarr(makeType<RingTy>(f), sh, w);
  auto vis = below(4) ? VIS_SECRET : VIS_PUBLIC;
  int owner = below(2) ? -1 : (int)below(n);
  bool strided = below(2);
  auto id = std::string(nm[pr]) + ", " + std::to_string(n) + " parties, " + std::to_string(w) + " bits, " + (vis == VIS_PUBLIC ? "public" : "secret") + ", owner " + std::to_string(owner) + ", shape " + shows(sh) + (strided ? ", shares stored with other strides" : "");
  setcase(id); count(id + showv(vals(raw, w)));
  try {
    auto s = io->toShares(raw, vis, owner);
    if (s.size() != n) { fail("count", id); return; }
    for (auto& x : s) if (x.eltype() != io->getShareType(vis, owner) || x.shape() != sh) { fail("share type", id); return; }
    if (strided) for (auto& x : s) x = view(x);
    auto o = io->fromShares(s);
    if (o.shape() != sh || vals(o, w) != vals(raw, w)) fail("reconstruct", id + ": put in " + showv(vals(raw, w)) + ", got " + showv(vals(o, w)));
    // boolean shares
    if (pr == 0) return;
    int bw = w;
    std::vector<NdArrayRef> b;
    static const PtType pts[] = {PT_U8, PT_U16, PT_U32, PT_U64, PT_U128};
    int m = (int)count_of(sh);
    std::vector<u128> val(m);
    for (auto& x : val) x = edgyw(w);
    if (pr == 3) { int k; do k = (int)below(5); while ((8 << k) > w); bw = 8 << k; for (auto& x : val) x &= mask(bw); for (size_t p = 0; p < n; p++) b.push_back(layout(makeType<mpc::aby3::BShrTy>(pts[k], (size_t)bw), sh, true)); }
    else for (size_t p = 0; p < n; p++) b.push_back(layout(pr == 1 ? makeType<mpc::semi2k::BShrTy>(f, (size_t)w) : pr == 2 ? makeType<mpc::securenn::BShrTy>(f, (size_t)w) : makeType<mpc::swift::BShrTy>(f, (size_t)w), sh, true));
    for (int i = 0; i < m; i++) {
      if (pr == 1 || pr == 2) { u128 acc = val[i]; for (size_t p = 1; p < n; p++) { u128 r = rnd128() & mask(bw); acc ^= r; put(b[p], i, by, r); } put(b[0], i, by, acc); }
      else if (pr == 3) { u128 r[3]; r[0] = rnd128() & mask(bw); r[1] = rnd128() & mask(bw); r[2] = val[i] ^ r[0] ^ r[1]; for (int p = 0; p < 3; p++) { put(b[p], i, bw / 8, r[p], 0); put(b[p], i, bw / 8, r[(p + 1) % 3], 1); } }
      else { u128 a1 = rnd128() & mask(bw), a2 = rnd128() & mask(bw), g = rnd128() & mask(bw), be = val[i] ^ a1 ^ a2; u128 t[3][3] = {{a1, a2, be ^ g}, {a1, be, g}, {a2, be, g}}; for (int p = 0; p < 3; p++) for (int c = 0; c < 3; c++) put(b[p], i, by, t[p][c], c); }
    }
    auto z = io->fromShares(b);
    if (z.shape() != sh || vals(z, w) != val) fail("reconstruct", id + ": boolean shares: put in " + showv(val) + ", got " + showv(vals(z, w)));
  } catch (const std::exception& e) { fail("raise", id + ": " + e.what()); }
}
template <class T> static void client(PtType pt, DataType dt, bool cx) {
  static const ProtocolKind pk[] = {ProtocolKind::REF2K, ProtocolKind::SEMI2K, ProtocolKind::SECURENN, ProtocolKind::ABY3, ProtocolKind::SWIFT};
  int pr = (int)below(5);
  RuntimeConfig cfg; cfg.protocol = pk[pr]; cfg.field = sizeof(T) == 8 ? (below(2) ? FM64 : FM128) : rfield();
  cfg.experimental_enable_colocated_optimization = below(2);
  size_t n = pr < 2 ? 2 + below(3) : 3;
  device::IoClient io(n, cfg);
  auto sh = rshape(); int nd = (int)sh.size(); int64_t m = count_of(sh);
  Strides st(nd, 0); int64_t c2 = 1 + below(2);
  bool flip = below(2);
  for (int k = 0; k < nd; k++) { int d = flip ? k : nd - 1 - k; st[d] = c2; c2 *= sh[d]; if (below(4) == 0) c2 += 2; }
  int q = cx ? 2 : 1;
  std::vector<unsigned char> b1((c2 + 8) * sizeof(T) * q + 16, 0), b2(b1.size(), 0);
  T *x = (T*)b1.data(), *y = (T*)b2.data();
  std::vector<int64_t> pos;
  for (int64_t i = 0; i < m; i++) { int64_t r = i, o = 0; for (int d = nd - 1; d >= 0; d--) { o += (r % sh[d]) * st[d]; r /= sh[d]; } for (int k = 0; k < q; k++) pos.push_back(o * q + k); }
  for (auto o : pos) {
    if constexpr (std::is_same_v<T, bool>) x[o] = below(2);
    else if constexpr (std::is_floating_point_v<T>) x[o] = (T)((int64_t)(rnd() % 4001) - 2000) / 16;
    else x[o] = (T)rnd();
  }
  auto vis = below(4) ? VIS_SECRET : VIS_PUBLIC; int owner = below(2) ? -1 : (int)below(n);
  auto id = "client " + std::string("type ") + std::to_string((int)pt) + ", protocol " + std::to_string(pr) + ", " + std::to_string(n) + " parties, field " + std::to_string((int)cfg.field) + ", " + (vis == VIS_PUBLIC ? "public" : "secret") + ", owner " + std::to_string(owner) + (cfg.experimental_enable_colocated_optimization ? ", colocated" : "") + ", shape " + shows(sh) + ", strides " + shows(Shape(st.begin(), st.end()));
  setcase(id); count(id);
  try {
    PtBufferView in((const T*)x, pt, sh, st);
    auto s = io.makeShares(in, vis, owner);
    if (s.size() != n) { fail("client count", id); return; }
    size_t bytes = 0;
    for (auto& v : s) {
      if (v.dtype() != dt || v.isComplex() != cx || v.shape() != sh) { fail("client type", id); return; }
      bytes = v.data().elsize() * v.numel();
    }
    if (!cx && (cfg.experimental_enable_colocated_optimization || owner < 0) && io.getShareSize(in, vis, owner) != bytes) fail("share size", id + ": " + std::to_string(io.getShareSize(in, vis, owner)) + " instead of " + std::to_string(bytes));
    if (io.getPtType(s) != pt) fail("plain type", id);
    // over the wire
    if (below(2)) for (auto& v : s) v = Value::fromProto(v.toProto(1 + below(64)));
    if (below(2)) for (auto& v : s) v = v.isComplex() ? Value(view(v.data()), view(*v.imag()), v.dtype()) : Value(view(v.data()), v.dtype());
    PtBufferView o(y, pt, sh, st);
    io.combineShares(s, &o);
    for (auto p : pos) if (x[p] != y[p]) { fail("client value", id + ": position " + std::to_string(p)); break; }
  } catch (const std::exception& e) { fail("client raise", id + ": " + e.what()); }
}
int main(int argc, char** argv) {
  init(argc, argv);
  mpc::makeRef2kIo(FM64, 2); mpc::semi2k::makeSemi2kIo(FM64, 2); mpc::securenn::makeSecurennIo(FM64, 3); mpc::aby3::makeAby3Io(FM64, 3); mpc::swift::makeSwiftIo(FM64, 3);
  mpc::Pub2kTy::getStaticId();
  while (time_left()) {
    for (int i = 0; i < 20; i++) wire();
    for (int p = 0; p < 5; p++) share(p);
    for (int i = 0; i < 3; i++) switch (below(9)) {
      case 0: client<bool>(PT_I1, DT_I1, false); break;
      case 1: client<int8_t>(PT_I8, DT_I8, false); break;
      case 2: client<uint16_t>(PT_U16, DT_U16, false); break;
      case 3: client<int32_t>(PT_I32, DT_I32, false); break;
      case 4: client<uint64_t>(PT_U64, DT_U64, false); break;
      case 5: client<float>(PT_F32, DT_F32, false); break;
      case 6: client<double>(PT_F64, DT_F64, false); break;
      case 7: client<float>(PT_CF32, DT_F32, true); break;
      default: client<double>(PT_CF64, DT_F64, true);
    }
  }
  return finish();
}
