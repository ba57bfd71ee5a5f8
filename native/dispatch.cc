// Every operation of the numeric layer over every combination of visibilities, with a random choice of the optional kernels a
// protocol may offer. The kernels registered here compute in the clear and check that they are given the operands their name says.
#include <set>
#include "common.h"
#include "libspu/core/context.h"
#include "libspu/core/type_util.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/mpc/api.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/kernel.h"
#include "libspu/mpc/semi2k/type.h"
#include "yacl/link/test_util.h"
#ifdef RING_CC
#include RING_CC   // kernel/hal/ring.cc with the memory limit of a matrix product replaced, so that small products are split
#endif
using namespace vn;
using namespace spu;
namespace hal = spu::kernel::hal;
static int w;
static FieldType fld;
static u128 M() { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
typedef std::vector<u128> V;
static V words(const NdArrayRef& a) {
  V r;
  for (int64_t i = 0; i < a.numel(); i++) r.push_back(w == 32 ? (u128)a.at<uint32_t>(i) : w == 64 ? (u128)a.at<uint64_t>(i) : (u128)a.at<u128>(i));
  return r;
}
static NdArrayRef arr(const Type& t, const Shape& s, const V& v) {
  NdArrayRef a(makeType<RingTy>(fld), s);
  for (size_t i = 0; i < v.size(); i++) {
    if (w == 32) a.at<uint32_t>(i) = (uint32_t)v[i];
    else if (w == 64) a.at<uint64_t>(i) = (uint64_t)v[i];
    else a.at<u128>(i) = v[i];
  }
  return a.as(t, true);
}
static char kindof(const Type& t) { return t.isa<Public>() ? 'p' : t.isa<Private>() ? 'v' : t.isa<AShare>() ? 'a' : t.isa<BShare>() ? 'b' : '?'; }
static Type ty(char k, int owner = 0, size_t nb = 0) {
  switch (k) {
    case 'p': return makeType<mpc::Pub2kTy>(fld);
    case 'v': return makeType<mpc::Priv2kTy>(fld, owner);
    case 'a': return makeType<mpc::semi2k::AShrTy>(fld);
    default: return makeType<mpc::semi2k::BShrTy>(fld, nb ? nb : (size_t)w);
  }
}
static std::string trail, wrong;
static u128 f1(const std::string& op, u128 x, u128 k = 0, u128 k2 = 0) {
  if (op == "negate") return (-x) & M();
  if (op == "not") return ~x & M();
  if (op == "msb") return x >> (w - 1) & 1;
  if (op == "square") return x * x & M();
  if (op == "lshift") return k >= (u128)w ? 0 : (x << k) & M();
  if (op == "rshift") return k >= (u128)w ? 0 : x >> k;
  if (op == "arshift" || op == "trunc") { u128 s = x >> (w - 1) & 1 ? M() : 0; return k == 0 ? x : ((x >> k) | (s << (w - k))) & M(); }
  if (op == "bitrev") { u128 r = x; for (u128 i = k; i < k2; i++) { u128 b = x >> i & 1, j = k2 - 1 - (i - k); r = (r & ~((u128)1 << j)) | b << j; } return r; }
  return x;
}
static u128 f2(const std::string& op, u128 x, u128 y) {
  return op == "add" ? (x + y) & M() : op == "sub" ? (x - y) & M() : op == "mul" ? x * y & M() : op == "and" ? (x & y) : op == "xor" ? (x ^ y) : (u128)(x == y);
}
static V mm(const V& a, const V& b, int m, int k, int n) {
  V r(m * n, 0);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { for (int t = 0; t < k; t++) r[i * n + j] += a[i * k + t] * b[t * n + j]; r[i * n + j] &= M(); }
  return r;
}
struct K : public Kernel {
  std::string name;
  explicit K(std::string n) : name(std::move(n)) {}
  static bool ok(char want, char got) { return want == got || (want == 's' && (got == 'a' || got == 'b')); }
  void need(const Value& v, char want) const {
    if (!ok(want, kindof(v.storage_type()))) wrong = "kernel " + name + " was given an operand of kind " + kindof(v.storage_type());
  }
  void evaluate(KernelEvalContext* c) const override {
    trail += name + " ";
    auto out = [&](char k, const Shape& s, const V& v, int owner = 0, size_t nb = 0) { c->pushOutput(Value(arr(ty(k, owner, nb), s, v), DT_INVALID)); };
    if (name == "make_p") { u128 v = c->getParam<uint128_t>(0); const auto& s = c->getParam<Shape>(1); return out('p', s, V(s.numel(), v & M())); }
    const auto& x = c->getParam<Value>(0);
    V a = words(x.data());
    char kx = kindof(x.storage_type());
    int ox = kx == 'v' ? (int)x.storage_type().as<Private>()->owner() : 0;
    if (name == "transpose") return c->pushOutput(Value(x.data().transpose(), DT_INVALID));
    if (name == "extract_slice") return c->pushOutput(Value(x.data().slice(c->getParam<Index>(1), c->getParam<Index>(2), c->getParam<Strides>(3)), DT_INVALID));
    if (name == "msb_a2b") { need(x, 'a'); V r; for (auto v : a) r.push_back(f1("msb", v)); return out('b', x.shape(), r, 0, 1); }
    size_t us = name.find('_');
    if (us == std::string::npos) {
      need(x, name[0]);
      int o = 0;
      if (name[2] == 'v') o = (int)c->getParam<size_t>(1);
      return out(name[2] == 's' ? 'a' : name[2], x.shape(), a, o);
    }
    std::string op = name.substr(0, us), ks = name.substr(us + 1);
    if (op == "trunc" || op == "lshift" || op == "rshift" || op == "arshift" || op == "bitrev") {
      need(x, ks[0]);
      u128 k, k2 = 0;
      if (op == "bitrev") k = c->getParam<size_t>(1), k2 = c->getParam<size_t>(2);
      else if (op == "trunc" && (ks == "a" || ks == "s")) k = c->getParam<size_t>(1);
      else k = c->getParam<Sizes>(1)[0];
      if (op == "trunc" && c->getParam<SignType>(2) != SignType::Positive) wrong = "sign hint lost";
      V r;
      for (auto v : a) r.push_back(f1(op, v, k, k2));
      return out(kx, x.shape(), r, ox);
    }
    if (ks.size() == 1) { need(x, ks[0]); V r; for (auto v : a) r.push_back(f1(op, v)); return out(kx, x.shape(), r, ox); }
    const auto& y = c->getParam<Value>(1);
    V b = words(y.data());
    char ky = kindof(y.storage_type());
    int oy = ky == 'v' ? (int)y.storage_type().as<Private>()->owner() : 0;
    if (ks == "a1b") { need(x, 'a'); need(y, 'b'); if (y.storage_type().as<BShare>()->nbits() != 1) wrong = "mul_a1b on more than one bit"; }
    else { need(x, ks[0]); need(y, ks[1]); }
    if (ks == "vvv" && ox != oy) wrong = "vvv with two owners";
    if (ks == "vvs" && ox == oy) wrong = "vvs with one owner";
    V r;
    Shape s = x.shape();
    if (op == "mmul") { r = mm(a, b, s[0], s[1], y.shape()[1]); s = Shape{s[0], y.shape()[1]}; }
    else for (size_t i = 0; i < a.size(); i++) r.push_back(f2(op, a[i], b[i]));
    bool sec = ks.find('s') != std::string::npos || ks.find('a') != std::string::npos || ks.find('b') != std::string::npos;
    if (sec) return out(op == "and" || op == "xor" || op == "equal" ? 'b' : 'a', s, r);
    if (kx == 'p' && ky == 'p') return out('p', s, r);
    out('v', s, r, kx == 'v' ? ox : oy);
  }
};
static const char* MUST[] = {"p2a", "p2b", "p2v", "v2a", "v2p", "a2p", "b2p", "a2v", "a2b", "b2a", "make_p", "negate_a", "negate_v", "negate_p", "msb_v", "msb_p", "equal_pp", "add_aa", "add_ap", "add_vvv", "add_vp", "add_pp", "mul_aa", "mul_ap", "mul_vvv", "mul_vp", "mul_pp", "mmul_aa", "mmul_ap", "mmul_vvv", "mmul_vp", "mmul_pp", "and_bb", "and_bp", "and_vvv", "and_vp", "and_pp", "xor_bb", "xor_bp", "xor_vvv", "xor_vp", "xor_pp", "lshift_a", "lshift_b", "lshift_v", "lshift_p", "rshift_b", "rshift_v", "rshift_p", "arshift_b", "arshift_v", "arshift_p", "trunc_a", "trunc_v", "trunc_p", "bitrev_b", "bitrev_v", "bitrev_p", "transpose", "extract_slice"};
static const char* MAY[] = {"p2s", "v2s", "s2p", "s2v", "b2v", "negate_s", "msb_s", "msb_a2b", "add_ss", "add_sv", "add_sp", "add_av", "add_vvs", "mul_ss", "mul_sv", "mul_sp", "mul_av", "mul_a1b", "mul_vvs", "square_a", "mmul_ss", "mmul_sv", "mmul_sp", "mmul_av", "mmul_vvs", "and_ss", "and_sv", "and_sp", "and_bv", "and_vvs", "xor_ss", "xor_sv", "xor_sp", "xor_bv", "xor_vvs", "lshift_s", "rshift_s", "arshift_s", "trunc_s", "bitrev_s"};
static const char* KINDS[] = {"p", "v0", "v1", "a", "b1", "bn", "b"};

int main(int argc, char** argv) {
  init(argc, argv);
  auto links = yacl::link::test::SetupWorld("d", 1);
  while (time_left()) {
    fld = below(3) == 0 ? FM32 : below(2) ? FM64 : FM128;
    w = fld == FM32 ? 32 : fld == FM64 ? 64 : 128;
    RuntimeConfig conf{};
    conf.protocol = ProtocolKind::SEMI2K; conf.field = fld; conf.fxp_fraction_bits = 7;
    SPUContext ctx(conf, links[0]);
    std::string have;
    for (auto n : MUST) ctx.prot()->regKernel(n, std::make_unique<K>(n));
    int bias = below(4);
    for (auto n : MAY) if (bias == 0 ? false : bias == 1 ? true : below(2)) { ctx.prot()->regKernel(n, std::make_unique<K>(n)); have += std::string(n) + " "; }
    for (int round = 0; round < 60 && time_left(); round++) {
      auto make = [&](const std::string& k, const Shape& s, V* v) {
        size_t nb = k == "b1" ? 1 : k == "bn" ? 2 + below(w - 1) : w;
        for (int64_t i = 0; i < s.numel(); i++) { u128 x = ((u128)rnd() << 64) | rnd(); if (below(4) == 0) x = below(3); v->push_back(k[0] == 'b' && nb < 128 ? x & (((u128)1 << nb) - 1) & M() : x & M()); }
        return Value(arr(ty(k[0], k[0] == 'v' ? k[1] - '0' : 0, nb), s, *v), DT_INVALID);
      };
      static const char* OPS[] = {"add", "sub", "mul", "and", "xor", "mmul", "not", "negate", "msb", "square", "lshift", "rshift", "arshift", "trunc", "bitrev", "p2s", "s2p", "v2s", "v2p", "s2v", "p2v"};
      std::string op = OPS[below(21)], kx = KINDS[below(7)], ky = KINDS[below(7)];
      if (op == "sub" && below(2)) op = "add";
      bool two = op == "add" || op == "sub" || op == "mul" || op == "and" || op == "xor" || op == "mmul";
      if (op[0] == 'p' && op[1] == '2') kx = "p";
      if (op[0] == 'v' && op[1] == '2') kx = below(2) ? "v0" : "v1";
      if (op[0] == 's' && op[1] == '2') kx = KINDS[3 + below(4)];
      if (op == "mmul" && below(2)) kx = KINDS[3 + below(4)];
#ifdef RING_CC
      op = "mmul"; two = true;
      int mm_ = 1 + below(9), kk = 1 + below(9), nn = 1 + below(9);
      switch (below(4)) { case 0: kk = 20 + below(60); break; case 1: mm_ = 20 + below(60); break; default: break; }
#else
      int mm_ = 2, kk = 3, nn = 4;
#endif
      V a, b, e;
      Shape s{2, 3}, so = s;
      if (op == "mmul") s = Shape{mm_, kk};
      Value x = make(kx, s, &a), y = make(ky, op == "mmul" ? Shape{kk, nn} : s, &b), r;
      size_t k = below(w), k2 = k + below(w - k + 1);
      std::string want;
      if (two) {
        bool sec = kx[0] == 'a' || kx[0] == 'b' || ky[0] == 'a' || ky[0] == 'b' || (kx[0] == 'v' && ky[0] == 'v' && kx != ky);
        want = sec ? "s" : kx[0] == 'v' ? kx : ky[0] == 'v' ? ky : "p";
      } else want = kx[0] == 'a' || kx[0] == 'b' ? "s" : kx;
      trail.clear(); wrong.clear();
      setcase(op + "(" + kx + (two ? ", " + ky : "") + "), " + std::to_string(w) + " bits, optional kernels: " + have);
      bool threw = false;
      std::string why;
      try {
        if (op == "add") r = hal::_add(&ctx, x, y);
        else if (op == "sub") r = hal::_sub(&ctx, x, y);
        else if (op == "mul") r = hal::_mul(&ctx, x, y);
        else if (op == "and") r = hal::_and(&ctx, x, y);
        else if (op == "xor") r = hal::_xor(&ctx, x, y);
        else if (op == "mmul") r = hal::_mmul(&ctx, x, y), so = Shape{mm_, nn};
        else if (op == "not") r = hal::_not(&ctx, x);
        else if (op == "negate") r = hal::_negate(&ctx, x);
        else if (op == "msb") r = hal::_msb(&ctx, x);
        else if (op == "square") r = hal::_square(&ctx, x);
        else if (op == "lshift") r = hal::_lshift(&ctx, x, {(int64_t)k});
        else if (op == "rshift") r = hal::_rshift(&ctx, x, {(int64_t)k});
        else if (op == "arshift") r = hal::_arshift(&ctx, x, {(int64_t)k});
        else if (op == "trunc") r = hal::_trunc(&ctx, x, k, SignType::Positive), k = k ? k : 7;
        else if (op == "bitrev") r = hal::_bitrev(&ctx, x, k, k2);
        else if (op == "p2s") r = mpc::p2s(&ctx, x), want = "s";
        else if (op == "s2p") r = mpc::s2p(&ctx, x), want = "p";
        else if (op == "v2s") r = mpc::v2s(&ctx, x), want = "s";
        else if (op == "v2p") r = mpc::v2p(&ctx, x), want = "p";
        else if (op == "s2v") r = mpc::s2v(&ctx, x, 1), want = "v1";
        else r = mpc::p2v(&ctx, x, 1), want = "v1";
      } catch (const std::exception& ex) { threw = true; why = ex.what(); }
      if (op == "mmul") e = mm(a, b, mm_, kk, nn);
      else for (size_t i = 0; i < a.size(); i++) e.push_back(two ? f2(op, a[i], b[i]) : f1(op, a[i], k, k2));
      std::string c = op + (op == "mmul" ? " " + std::to_string(mm_) + "x" + std::to_string(kk) + "x" + std::to_string(nn) + " " : "") + "(" + kx + (two ? ", " + ky : "") + "), " + std::to_string(w) + " bits, kernels called: " + trail;
      if (threw) fail("an operation the layer offers was refused", c + " " + why.substr(0, 200));
      else if (!wrong.empty()) fail("a kernel was given operands it is not for", c + ": " + wrong);
      else if (words(r.data()) != e || r.shape() != so) fail("wrong result", c);
      else {
        char g = kindof(r.storage_type());
        std::string got = g == 'v' ? "v" + std::to_string(r.storage_type().as<Private>()->owner()) : g == 'p' ? "p" : "s";
        if (got != want) fail("wrong visibility", c + ": " + got + " instead of " + want);
      }
      count(c + have);
    }
  }
  return finish();
}
