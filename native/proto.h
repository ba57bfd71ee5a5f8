// Runs the real protocols on threads over an in-process link and compares what the shares stand for with plain arithmetic.
#pragma once
#include "common.h"
#include <thread>
#include <mutex>
#include "libspu/core/context.h"
#include "libspu/mpc/ab_api.h"
#include "libspu/mpc/api.h"
#include "libspu/mpc/common/communicator.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/io_interface.h"
#include "libspu/mpc/kernel.h"
#include "yacl/link/test_util.h"
namespace vp {
using namespace vn;
using spu::NdArrayRef; using spu::Shape; using spu::FieldType; using spu::SPUContext; using spu::Value; using spu::Type;
typedef std::vector<u128> V;
inline int W(FieldType f) { return f == spu::FM32 ? 32 : f == spu::FM64 ? 64 : 128; }
inline u128 M(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline int bw(u128 v) { int k = 0; while (k < 128 && (v >> k)) k++; return k; }

// provided by each protocol's main
struct Prot {
  std::string name; size_t n; FieldType f;
  std::function<std::unique_ptr<SPUContext>(const spu::RuntimeConfig&, const std::shared_ptr<yacl::link::Context>&)> make;
  std::function<std::unique_ptr<spu::mpc::IoInterface>()> io;
  // what the parties' words stand for; reports inconsistent shares through its string
  std::function<V(char kind, const std::vector<NdArrayRef>&, std::string*)> recon;
  std::function<size_t(const Type&)> nbits = [](const Type& t) { return t.as<spu::BShare>()->nbits(); };
  bool priv = true;                          // the protocol has values known to one party
  int msb_mag = 0;                           // the sign of |x| < 2^msb_mag only (0: any)
  bool plain_shapes = false;                 // no views, no empty arrays, at least one dimension
  bool full_ars = false;                     // arithmetic shifts of full-width boolean shares only
  std::vector<std::string> truncs = {"trunc_a"};   // names of the truncation kernels
  spu::RuntimeConfig conf{};
};
inline V words(const NdArrayRef& a, int w) {
  V r;
  for (int64_t i = 0; i < a.numel(); i++)
    r.push_back(w == 32 ? (u128)a.at<uint32_t>(i) : w == 64 ? (u128)a.at<uint64_t>(i) : *(const u128*)&a.at<u128>(i));
  return r;
}
inline NdArrayRef ring(FieldType f, const Shape& s, const V& v) {
  NdArrayRef a(spu::makeType<spu::RingTy>(f), s);
  for (size_t i = 0; i < v.size(); i++) {
    if (f == spu::FM32) a.at<uint32_t>(i) = (uint32_t)v[i];
    else if (f == spu::FM64) a.at<uint64_t>(i) = (uint64_t)v[i];
    else a.at<u128>(i) = v[i];
  }
  return a;
}
inline V additive(const std::vector<NdArrayRef>& sh, int w, char kind) {
  V r = words(sh[0], w);
  for (size_t p = 1; p < sh.size(); p++) {
    V x = words(sh[p], w);
    for (size_t i = 0; i < r.size(); i++) r[i] = kind == 'b' ? r[i] ^ x[i] : (r[i] + x[i]) & M(w);
  }
  return r;
}
struct Net {
  Prot P; std::vector<std::shared_ptr<yacl::link::Context>> l; std::vector<std::unique_ptr<SPUContext>> c;
  std::unique_ptr<spu::mpc::IoInterface> io;
  bool broken = false;
  explicit Net(Prot p) : P(std::move(p)) {
#ifdef TILED
    P.conf.experimental_enable_intra_op_par = true;
#endif
    start();
  }
  void start() {
    c.clear();
    static int k = 0;
    l = yacl::link::test::SetupWorld("w" + std::to_string(k++), P.n);
    c.resize(P.n);
    auto e = each([&](size_t r) { c[r] = P.make(P.conf, l[r]); });
    if (!e.empty()) { fail("setup", P.name + ": set-up raised: " + e); finish(); }
    io = P.io();
  }
  std::string each(const std::function<void(size_t)>& f) {
    std::mutex m; std::string err;
    std::vector<std::thread> t;
    for (size_t r = 0; r < P.n; r++)
      t.emplace_back([&, r] {
        std::string e;
        try { f(r); return; } catch (const std::exception& x) { e = x.what(); } catch (...) { e = "unknown"; }
        { std::lock_guard<std::mutex> g(m); if (err.empty()) err = "party " + std::to_string(r) + ": " + e.substr(0, 250); }
        l[r]->Abort();
      });
    for (auto& x : t) x.join();
    return err;
  }
};
struct Val {
  char kind; int owner = -1; V pt; Shape shape; std::vector<NdArrayRef> sh; std::string how; size_t declared = 0;
};
typedef std::function<NdArrayRef(SPUContext*, size_t, const std::vector<Value>&)> Op;
inline Value wrap(const NdArrayRef& a) { return Value(a, spu::DT_INVALID); }

struct Fuzz {
  Net N; int w; std::vector<Val> pool; Shape shape; std::string trail;
  explicit Fuzz(Prot p) : N(std::move(p)), w(W(N.P.f)) {}
  std::string ctx() { return N.P.name + ", " + std::to_string(N.P.n) + " parties, " + std::to_string(w) + " bits"; }
  static std::string shs(const Shape& s) { std::string r = "("; for (auto d : s) r += std::to_string(d) + ","; return r + ")"; }
  V randv(size_t n, int bits) {
    V v(n);
    int b = bits;
    for (auto& x : v) x = edgy() & M(b);
    return v;
  }
  // a view of the same shape over a larger buffer: every party applies the same slicing
  std::vector<NdArrayRef> viewed(const Shape& s, const V& v, const std::function<std::vector<NdArrayRef>(const NdArrayRef&)>& share) {
    if (N.P.plain_shapes || s.ndim() == 0 || below(2)) return share(ring(N.P.f, s, v));
    Shape big = s; spu::Index st(s.size()), en(s.size()); spu::Strides sr(s.size());
    for (size_t d = 0; d < s.size(); d++) {
      int64_t step = 1 + below(2), off = below(2);
      st[d] = off; sr[d] = step; en[d] = s[d] ? off + (s[d] - 1) * step + 1 : off; big[d] = en[d] + below(2);
      if (s[d] == 0) en[d] = st[d];
    }
    NdArrayRef b(spu::makeType<spu::RingTy>(N.P.f), big);
    if (b.numel()) memset(b.data(), 0x5a, b.numel() * b.elsize());
    NdArrayRef sl = b.slice(st, en, sr);
    NdArrayRef src = ring(N.P.f, s, v);
    for (int64_t i = 0; i < sl.numel(); i++) memcpy(&sl.at(i), &src.at(i), sl.elsize());
    auto out = share(b);
    for (auto& x : out) x = x.slice(st, en, sr);
    return out;
  }
  bool has(const std::string& k) { return N.c[0]->hasKernel(k); }
  Val secret(const Shape& s, const V& v) {
    Val r; r.kind = 'a'; r.pt = v; r.shape = s; r.how = "a";
    r.sh = viewed(s, v, [&](const NdArrayRef& x) { return N.io->toShares(x, spu::VIS_SECRET); });
    return r;
  }
  Val publ(const Shape& s, const V& v) {
    Val r; r.kind = 'p'; r.pt = v; r.shape = s; r.how = "p";
    r.sh = viewed(s, v, [&](const NdArrayRef& x) { return N.io->toShares(x, spu::VIS_PUBLIC); });
    return r;
  }
  Val priv(const Shape& s, const V& v, int o) {
    Val r; r.kind = 'v'; r.owner = o; r.pt = v; r.shape = s; r.how = "v" + std::to_string(o);
    r.sh = viewed(s, v, [&](const NdArrayRef& x) { return N.io->toShares(x, spu::VIS_SECRET, o); });
    return r;
  }
  V open(const Val& x, std::string* bad) {
    if (x.kind == 'p') {
      V r = words(x.sh[0], w);
      for (size_t p = 1; p < N.P.n; p++) if (words(x.sh[p], w) != r) *bad = "parties hold different public values";
      return r;
    }
    if (x.kind == 'v') return words(x.sh[x.owner], w);
    return N.P.recon(x.kind == 's' ? (x.sh[0].eltype().isa<spu::BShare>() ? 'b' : 'a') : x.kind, x.sh, bad);
  }
  // runs op on all parties; the result must stand for want (within tol)
  bool step(const std::string& nm, const std::vector<Val*>& in, char kind, const Shape& os, const V& want, const Op& op, Val* out, int owner = -1,
            const std::function<bool(u128, u128)>& ok = nullptr, bool keep = true) {
    std::string d = nm + "(";
    for (size_t i = 0; i < in.size(); i++) { d += i ? ", " : ""; d += in[i]->how; if (in[i]->pt.size()) d += "=" + hex(in[i]->pt[0]); if (in[i]->pt.size() > 1) d += ".."; }
    d += ") shape " + shs(in.size() ? in[0]->shape : os) + " [" + ctx() + "]";
    setcase(d);
    Val r; r.kind = kind; r.owner = owner; r.shape = os; r.sh.resize(N.P.n); r.how = nm;
    std::vector<V> before;
    for (auto* x : in) { std::string b; before.push_back(open(*x, &b)); }
    auto e = N.each([&](size_t p) {
      std::vector<Value> vs;
      for (auto* x : in) vs.push_back(wrap(x->sh[p]));
      r.sh[p] = op(N.c[p].get(), p, vs);
    });
    if (!e.empty()) { fail(nm, d + " raised: " + e); N.start(); pool.clear(); return false; }
    for (size_t p = 0; p < N.P.n; p++) {
      if (r.sh[p].shape() != os) { fail(nm, d + ": party " + std::to_string(p) + " got shape " + shs(r.sh[p].shape()) + ", expected " + shs(os)); return false; }
      if (r.sh[p].eltype() != r.sh[0].eltype()) { fail(nm, d + ": parties disagree on the type: " + r.sh[0].eltype().toString() + " / " + r.sh[p].eltype().toString()); return false; }
    }
    bool tyok = kind == 'a' ? r.sh[0].eltype().isa<spu::AShare>() : kind == 'b' ? r.sh[0].eltype().isa<spu::BShare>() : kind == 's' ? r.sh[0].eltype().isa<spu::Secret>() : kind == 'p' ? r.sh[0].eltype().isa<spu::Public>() : r.sh[0].eltype().isa<spu::Private>();
    if (!tyok) { fail(nm, d + ": result has type " + r.sh[0].eltype().toString()); return false; }
    std::string bad;
    V got = open(r, &bad);
    if (!bad.empty()) { fail(nm, d + ": " + bad); return false; }
    for (size_t i = 0; i < want.size(); i++)
      if (ok ? !ok(got[i], want[i]) : got[i] != want[i]) { fail(nm, d + ": element " + std::to_string(i) + " is " + hex(got[i]) + ", expected " + hex(want[i]) + inval(in, i)); return false; }
    if (kind == 'b' || (kind == 's' && r.sh[0].eltype().isa<spu::BShare>())) {
      size_t nb = N.P.nbits(r.sh[0].eltype());
      if (nb > (size_t)w) { fail(nm, d + ": declared " + std::to_string(nb) + " bits"); return false; }
      for (size_t i = 0; i < got.size(); i++) if (bw(got[i]) > (int)nb) { fail(nm, d + ": value " + hex(got[i]) + " exceeds the declared " + std::to_string(nb) + " bits"); return false; }
      r.declared = nb;
    }
    for (size_t k = 0; k < in.size(); k++) { std::string b; if (open(*in[k], &b) != before[k]) { fail(nm, d + ": operand " + std::to_string(k) + " was changed"); pool.clear(); return false; } }
    r.pt = got;
    count(d);
    if (out) *out = r;
    if (keep) { if (pool.size() < 24) pool.push_back(r); else pool[below(24)] = r; }
    return true;
  }
  std::string inval(const std::vector<Val*>& in, size_t i) {
    std::string s = " (operands";
    for (auto* x : in) if (i < x->pt.size()) s += " " + hex(x->pt[i]);
    return s + ")";
  }
  Val forMsb(const Shape& s, const Val& a) {
    if (!N.P.msb_mag) return a;
    V v = randv(s.numel(), N.P.msb_mag);
    for (auto& x : v) if (below(2)) x = (-x) & M(w);
    return secret(s, v);
  }
  bool canArs(const Val& a) { return !N.P.full_ars || !a.sh[0].eltype().isa<spu::BShare>() || N.P.nbits(a.sh[0].eltype()) == (size_t)w; }
  Val* pick(char kind, const Shape& s) {
    std::vector<Val*> c;
    for (auto& x : pool) if (x.kind == kind && x.shape == s) c.push_back(&x);
    return c.empty() ? nullptr : c[below(c.size())];
  }
  Val getA(const Shape& s) { auto* p = below(2) ? pick('a', s) : nullptr; return p ? *p : secret(s, randv(s.numel(), w)); }
  Val getP(const Shape& s) { auto* p = below(4) == 0 ? pick('p', s) : nullptr; return p ? *p : publ(s, randv(s.numel(), below(2) ? w : 1 + below(w))); }
  // boolean share of a value of at most `bits` bits
  Val getB(const Shape& s, int bits = -1) {
    auto* p = bits < 0 && below(2) ? pick('b', s) : nullptr;
    if (p) return *p;
    if (bits < 0) bits = below(3) ? 1 + below(w) : 1 + below(9);
    Val x = publ(s, randv(s.numel(), bits)), r;
    r.kind = 0;
    step("p2b", {&x}, 'b', s, x.pt, [](SPUContext* c, size_t, const std::vector<Value>& v) { return spu::mpc::p2b(c, v[0]).data(); }, &r);
    return r;
  }
  V map(const V& a, const std::function<u128(u128)>& f) { V r; for (auto x : a) r.push_back(f(x) & M(w)); return r; }
  V map2(const V& a, const V& b, const std::function<u128(u128, u128)>& f) { V r; for (size_t i = 0; i < a.size(); i++) r.push_back(f(a[i], b[i]) & M(w)); return r; }
  Shape rshape() {
    if (N.P.plain_shapes) return below(3) ? Shape{(int64_t)(1 + below(9))} : Shape{(int64_t)(1 + below(3)), (int64_t)(1 + below(4))};
    switch (below(8)) {
      case 0: return {};
      case 1: return {1};
      case 2: return {(int64_t)below(40)};
      case 3: return {(int64_t)(1 + below(4)), (int64_t)(1 + below(5))};
      case 4: return {(int64_t)(1 + below(3)), 1, (int64_t)(1 + below(4))};
      default: return {(int64_t)(1 + below(9))};
    }
  }
};
#define OPF [=](SPUContext * c, size_t rank, const std::vector<Value>& v) -> NdArrayRef
using namespace spu::mpc;
using spu::dynDispatch;
inline i128 sx(u128 v, int w) { return w >= 128 ? (i128)v : (i128)(v << (128 - w)) >> (128 - w); }
inline u128 permbits(u128 v, int w, int stride, int nbits, bool intl) {
  int L = 0; while ((1 << L) < nbits) L++;
  int B = 1 << L;
  if (stride >= L - 1 || B > w) return v;
  u128 r = 0;
  for (int i = 0; i < w; i++) {
    int blk = i / B * B, p = i % B, lo = p & ((1 << stride) - 1), j = p >> stride, half = 1 << (L - stride - 1);
    int q = ((j & 1) * half + (j >> 1)) << stride | lo, from = i, to = blk + q;
    if (intl) std::swap(from, to);
    if ((v >> from) & 1) r |= (u128)1 << to;
  }
  return r;
}

enum { ARITH = 1, BOOL = 2, CONV = 4, TRUNC = 8, PERM = 16, API = 32 };
// the visibility-polymorphic interface: secret, private and public operands in every mix
inline void api(Fuzz& F) {
  Shape s = F.rshape();
  int w = F.w; u128 m = M(w);
  size_t n = F.N.P.n;
  auto get = [&](char k, int o = -1) -> Val {
    if (k == 's') { auto* p = below(2) ? F.pick('s', s) : nullptr; if (p) return *p; auto a = F.secret(s, F.randv(s.numel(), w)); a.kind = 's'; a.how = "s"; return a; }
    if (k == 'p') { auto* p = below(3) == 0 ? F.pick('p', s) : nullptr; if (p) return *p; return F.publ(s, F.randv(s.numel(), below(2) ? w : 1 + below(w))); }
    return F.priv(s, F.randv(s.numel(), w), o < 0 ? (int)below(n) : o);
  };
  bool pv = F.N.P.priv;
  typedef Value (*Bin)(SPUContext*, const Value&, const Value&);
  struct B { const char* nm; char a, b, r; Bin f; int op; };
  static const B bins[] = {
      {"add_ss", 's', 's', 's', add_ss, 0}, {"add_sv", 's', 'v', 's', add_sv, 0}, {"add_sp", 's', 'p', 's', add_sp, 0}, {"add_vv", 'v', 'v', '?', add_vv, 0}, {"add_vp", 'v', 'p', 'v', add_vp, 0}, {"add_pp", 'p', 'p', 'p', add_pp, 0},
      {"mul_ss", 's', 's', 's', mul_ss, 1}, {"mul_sv", 's', 'v', 's', mul_sv, 1}, {"mul_sp", 's', 'p', 's', mul_sp, 1}, {"mul_vv", 'v', 'v', '?', mul_vv, 1}, {"mul_vp", 'v', 'p', 'v', mul_vp, 1}, {"mul_pp", 'p', 'p', 'p', mul_pp, 1},
      {"and_ss", 's', 's', 's', and_ss, 2}, {"and_sv", 's', 'v', 's', and_sv, 2}, {"and_sp", 's', 'p', 's', and_sp, 2}, {"and_vv", 'v', 'v', '?', and_vv, 2}, {"and_vp", 'v', 'p', 'v', and_vp, 2}, {"and_pp", 'p', 'p', 'p', and_pp, 2},
      {"xor_ss", 's', 's', 's', xor_ss, 3}, {"xor_sv", 's', 'v', 's', xor_sv, 3}, {"xor_sp", 's', 'p', 's', xor_sp, 3}, {"xor_vv", 'v', 'v', '?', xor_vv, 3}, {"xor_vp", 'v', 'p', 'v', xor_vp, 3}, {"xor_pp", 'p', 'p', 'p', xor_pp, 3}};
  switch (below(14)) {
    case 0: { auto A = get('s'); F.step("s2p", {&A}, 'p', s, A.pt, OPF { return s2p(c, v[0]).data(); }, nullptr); break; }
    case 1: { auto A = get('p'); F.step("p2s", {&A}, 's', s, A.pt, OPF { return p2s(c, v[0]).data(); }, nullptr); break; }
    case 2: if (pv) { auto A = get('s'); size_t o = below(n); F.step("s2v", {&A}, 'v', s, A.pt, OPF { return s2v(c, v[0], o).data(); }, nullptr, o); } break;
    case 3: if (pv) { auto A = get('v'); if (below(2)) F.step("v2s", {&A}, 's', s, A.pt, OPF { return v2s(c, v[0]).data(); }, nullptr); else F.step("v2p", {&A}, 'p', s, A.pt, OPF { return v2p(c, v[0]).data(); }, nullptr); } break;
    case 4: if (pv) { auto A = get('p'); size_t o = below(n); F.step("p2v", {&A}, 'v', s, A.pt, OPF { return p2v(c, v[0], o).data(); }, nullptr, o); } break;
    case 5: {
      auto A = get('s');
      switch (below(5)) {
        case 0: F.step("not_s", {&A}, 's', s, F.map(A.pt, [](u128 x) { return ~x; }), OPF { return not_s(c, v[0]).data(); }, nullptr); break;
        case 1: F.step("negate_s", {&A}, 's', s, F.map(A.pt, [](u128 x) { return -x; }), OPF { return negate_s(c, v[0]).data(); }, nullptr); break;
        case 2: if (F.N.P.msb_mag) { A = F.forMsb(s, A); A.kind = 's'; } F.step("msb_s", {&A}, 's', s, F.map(A.pt, [=](u128 x) { return x >> (w - 1) & 1; }), OPF { return msb_s(c, v[0]).data(); }, nullptr); break;
        case 3: F.step("square_s", {&A}, 's', s, F.map(A.pt, [](u128 x) { return x * x; }), OPF { return square_s(c, v[0]).data(); }, nullptr); break;
        case 4: { size_t e = below(w + 1), b = below(e + 1); F.step("bitrev_s [" + std::to_string(b) + "," + std::to_string(e) + ")", {&A}, 's', s, F.map(A.pt, [=](u128 x) { u128 r = 0; for (size_t i = 0; i < (size_t)w; i++) { size_t src = i >= b && i < e ? b + e - 1 - i : i; if (x >> src & 1) r |= (u128)1 << i; } return r; }), OPF { return bitrev_s(c, v[0], b, e).data(); }, nullptr); break; }
      }
      break;
    }
    case 6: {
      auto A = get(below(2) && pv ? 'v' : 'p');
      bool isv = A.kind == 'v';
      switch (below(5)) {
        case 0: F.step(isv ? "not_v" : "not_p", {&A}, A.kind, s, F.map(A.pt, [](u128 x) { return ~x; }), OPF { return (isv ? not_v(c, v[0]) : not_p(c, v[0])).data(); }, nullptr, A.owner); break;
        case 1: F.step(isv ? "negate_v" : "negate_p", {&A}, A.kind, s, F.map(A.pt, [](u128 x) { return -x; }), OPF { return (isv ? negate_v(c, v[0]) : negate_p(c, v[0])).data(); }, nullptr, A.owner); break;
        case 2: F.step(isv ? "msb_v" : "msb_p", {&A}, A.kind, s, F.map(A.pt, [=](u128 x) { return x >> (w - 1) & 1; }), OPF { return (isv ? msb_v(c, v[0]) : msb_p(c, v[0])).data(); }, nullptr, A.owner); break;
        case 3: F.step(isv ? "square_v" : "square_p", {&A}, A.kind, s, F.map(A.pt, [](u128 x) { return x * x; }), OPF { return (isv ? square_v(c, v[0]) : square_p(c, v[0])).data(); }, nullptr, A.owner); break;
        case 4: { size_t k = below(w - 1) + 1; F.step(std::string(isv ? "trunc_v" : "trunc_p") + " by " + std::to_string(k), {&A}, A.kind, s, F.map(A.pt, [=](u128 x) { return (u128)(sx(x, w) >> k); }), OPF { return (isv ? trunc_v(c, v[0], k, spu::SignType::Unknown) : trunc_p(c, v[0], k, spu::SignType::Unknown)).data(); }, nullptr, A.owner,
            [=](u128 g, u128 e) { i128 d = sx(g - e, w); return d >= -1 && d <= 1; }); break; }
      }
      break;
    }
    case 7: {
      spu::Sizes k{(int64_t)below(w)};
      char kd = "svp"[below(3)];
      if (kd == 'v' && !pv) break;
      auto A = get(kd);
      int op = below(3);
      if (op == 2 && kd == 's' && !F.canArs(A)) break;
      std::string nm = std::string(op == 0 ? "lshift_" : op == 1 ? "rshift_" : "arshift_") + kd + " by " + std::to_string(k[0]);
      F.step(nm, {&A}, kd, s, F.map(A.pt, [=](u128 x) { return op == 0 ? x << k[0] : op == 1 ? x >> k[0] : (u128)(sx(x, w) >> k[0]); }),
             OPF {
               if (kd == 's') return (op == 0 ? lshift_s(c, v[0], k) : op == 1 ? rshift_s(c, v[0], k) : arshift_s(c, v[0], k)).data();
               if (kd == 'v') return (op == 0 ? lshift_v(c, v[0], k) : op == 1 ? rshift_v(c, v[0], k) : arshift_v(c, v[0], k)).data();
               return (op == 0 ? lshift_p(c, v[0], k) : op == 1 ? rshift_p(c, v[0], k) : arshift_p(c, v[0], k)).data();
             }, nullptr, A.owner);
      break;
    }
    case 8: {
      auto A = get('s');
      bool sec = below(2);
      Val B = below(2) ? A : get('s');
      if (!sec) B = below(2) ? F.publ(s, A.pt) : get('p');
      V want = F.map2(A.pt, B.pt, [](u128 x, u128 y) { return (u128)(x == y); });
      bool there = true;
      {
        // optional interface: nothing is claimed when the protocol does not offer it
        std::vector<char> has(n, 1);
        auto e = F.N.each([&](size_t p) { has[p] = (sec ? equal_ss(F.N.c[p].get(), wrap(A.sh[p]), wrap(B.sh[p])) : equal_sp(F.N.c[p].get(), wrap(A.sh[p]), wrap(B.sh[p]))).has_value(); });
        if (!e.empty()) { fail("equal", "equal_ss/sp raised: " + e + " [" + F.ctx() + "]"); F.N.start(); F.pool.clear(); break; }
        for (auto h : has) there = there && h;
      }
      if (there) F.step(sec ? "equal_ss" : "equal_sp", {&A, &B}, 's', s, want, OPF { return (sec ? *equal_ss(c, v[0], v[1]) : *equal_sp(c, v[0], v[1])).data(); }, nullptr);
      break;
    }
    case 9: {
      int64_t a = 1 + below(4), b = 1 + below(4), d = 1 + below(4);
      static const char* mm[] = {"ss", "sv", "sp", "vv", "vp", "pp"};
      const char* k = mm[below(6)];
      if (!pv && strchr(k, 'v')) break;
      int o = below(n), o2 = below(2) ? o : (int)below(n);
      auto mk = [&](char c, const Shape& sh, int ow) { V v = F.randv(sh.numel(), w); if (c == 's') { auto x = F.secret(sh, v); x.kind = 's'; return x; } return c == 'p' ? F.publ(sh, v) : F.priv(sh, v, ow); };
      auto X = mk(k[0], {a, b}, o); auto Y = mk(k[1], {b, d}, o2);
      V want;
      for (int64_t i = 0; i < a; i++) for (int64_t j = 0; j < d; j++) { u128 t = 0; for (int64_t q = 0; q < b; q++) t += X.pt[i * b + q] * Y.pt[q * d + j]; want.push_back(t & m); }
      std::string ks = k;
      char rk = ks == "pp" ? 'p' : ks == "vp" ? 'v' : ks == "vv" ? (o == o2 ? 'v' : 's') : 's';
      F.step("mmul_" + ks, {&X, &Y}, rk, {a, d}, want, OPF { return (ks == "ss" ? mmul_ss(c, v[0], v[1]) : ks == "sv" ? mmul_sv(c, v[0], v[1]) : ks == "sp" ? mmul_sp(c, v[0], v[1]) : ks == "vv" ? mmul_vv(c, v[0], v[1]) : ks == "vp" ? mmul_vp(c, v[0], v[1]) : mmul_pp(c, v[0], v[1])).data(); }, nullptr, rk == 'v' ? o : -1);
      break;
    }
    default: {
      const B& b = bins[below(sizeof bins / sizeof bins[0])];
      if (!pv && (b.a == 'v' || b.b == 'v')) break;
      int o = below(n), o2 = below(2) ? o : (int)below(n);
      auto X = get(b.a, o), Y = get(b.b, o2);
      V want = F.map2(X.pt, Y.pt, [&](u128 x, u128 y) { return b.op == 0 ? x + y : b.op == 1 ? x * y : b.op == 2 ? (x & y) : (x ^ y); });
      char rk = b.r == '?' ? (o == o2 ? 'v' : 's') : b.r;
      auto f = b.f;
      F.step(b.nm, {&X, &Y}, rk, s, want, OPF { return f(c, v[0], v[1]).data(); }, nullptr, rk == 'v' ? o : -1);
    }
  }
}
inline void arith(Fuzz& F) {
  Shape s = F.rshape();
  int w = F.w; u128 m = M(w);
  size_t n = F.N.P.n;
  auto A = F.getA(s), B = F.getA(s), Pb = F.getP(s);
  switch (below(18)) {
    case 0: if (F.has("a2p")) F.step("a2p", {&A}, 'p', s, A.pt, OPF { return a2p(c, v[0]).data(); }, nullptr); break;
    case 1: F.step("p2a", {&Pb}, 'a', s, Pb.pt, OPF { return p2a(c, v[0]).data(); }, nullptr); break;
    case 2: F.step("negate_a", {&A}, 'a', s, F.map(A.pt, [](u128 x) { return -x; }), OPF { return negate_a(c, v[0]).data(); }, nullptr); break;
    case 3: F.step("add_aa", {&A, &B}, 'a', s, F.map2(A.pt, B.pt, [](u128 x, u128 y) { return x + y; }), OPF { return add_aa(c, v[0], v[1]).data(); }, nullptr); break;
    case 4: F.step("add_ap", {&A, &Pb}, 'a', s, F.map2(A.pt, Pb.pt, [](u128 x, u128 y) { return x + y; }), OPF { return add_ap(c, v[0], v[1]).data(); }, nullptr); break;
    case 5: F.step("mul_aa", {&A, &B}, 'a', s, F.map2(A.pt, B.pt, [](u128 x, u128 y) { return x * y; }), OPF { return mul_aa(c, v[0], v[1]).data(); }, nullptr); break;
    case 6: F.step("mul_ap", {&A, &Pb}, 'a', s, F.map2(A.pt, Pb.pt, [](u128 x, u128 y) { return x * y; }), OPF { return mul_ap(c, v[0], v[1]).data(); }, nullptr); break;
    case 7: if (F.has("square_a")) F.step("square_a", {&A}, 'a', s, F.map(A.pt, [](u128 x) { return x * x; }), OPF { return square_a(c, v[0]).data(); }, nullptr); break;
    case 8: { size_t o = below(n); if (F.has("a2v")) F.step("a2v", {&A}, 'v', s, A.pt, OPF { return a2v(c, v[0], o).data(); }, nullptr, o); break; }
    case 9: { int o = below(n); if (!F.has("v2a")) break; auto X = F.priv(s, F.randv(s.numel(), w), o); F.step("v2a", {&X}, 'a', s, X.pt, OPF { return v2a(c, v[0]).data(); }, nullptr); break; }
    case 10: {
      spu::Sizes k; bool one = below(2) || s.numel() == 0;
      for (int64_t i = 0; i < (one ? 1 : s.numel()); i++) k.push_back(below(w));
      V want; for (size_t i = 0; i < A.pt.size(); i++) want.push_back((A.pt[i] << k[one ? 0 : i]) & m);
      if (!one && s.numel() != (int64_t)k.size()) break;
      F.step("lshift_a", {&A}, 'a', s, want, OPF { return lshift_a(c, v[0], k).data(); }, nullptr);
      break;
    }
    case 11: case 12: case 13: {
      int64_t a = 1 + below(4), b = 1 + below(4), d = 1 + below(4);
      auto X = F.secret({a, b}, F.randv(a * b, w));
      bool sec = below(2);
      auto Y = sec ? F.secret({b, d}, F.randv(b * d, w)) : F.publ({b, d}, F.randv(b * d, w));
      V want;
      for (int64_t i = 0; i < a; i++) for (int64_t j = 0; j < d; j++) { u128 t = 0; for (int64_t k = 0; k < b; k++) t += X.pt[i * b + k] * Y.pt[k * d + j]; want.push_back(t & m); }
      if (sec) F.step("mmul_aa", {&X, &Y}, 'a', {a, d}, want, OPF { return mmul_aa(c, v[0], v[1]).data(); }, nullptr);
      else F.step("mmul_ap", {&X, &Y}, 'a', {a, d}, want, OPF { return mmul_ap(c, v[0], v[1]).data(); }, nullptr);
      break;
    }
    case 14: if (F.has("mul_a1b")) { auto Y = F.getB(s, 1); if (Y.kind && Y.declared == 1) F.step("mul_a1b", {&A, &Y}, 'a', s, F.map2(A.pt, Y.pt, [](u128 x, u128 y) { return x * (y & 1); }), OPF { return mul_a1b(c, v[0], v[1]).data(); }, nullptr); } break;
    case 15: if (F.has("mul_vvs") && n == 2) {
      int o = below(2); auto X = F.priv(s, F.randv(s.numel(), w), o), Y = F.priv(s, F.randv(s.numel(), w), 1 - o);
      F.step("mul_vvs", {&X, &Y}, 'a', s, F.map2(X.pt, Y.pt, [](u128 x, u128 y) { return x * y; }), OPF { return dynDispatch(c, "mul_vvs", v[0], v[1]).data(); }, nullptr);
    } break;
    case 16: if (F.has("rand_a")) {
      Val r; if (F.step("rand_a", {}, 'a', s, {}, OPF { return rand_a(c, s).data(); }, &r)) { if (r.pt.size() != (size_t)s.numel()) fail("rand_a", "rand_a: wrong number of elements"); } break;
    } break;
    case 17: if (F.has("mul_aa")) F.step("mul_aa of one operand", {&A}, 'a', s, F.map(A.pt, [](u128 x) { return x * x; }), OPF { return mul_aa(c, v[0], v[0]).data(); }, nullptr); break;
  }
}
inline void boolean(Fuzz& F) {
  Shape s = F.rshape();
  int w = F.w;
  auto A = F.getB(s), B = F.getB(s), Pb = F.getP(s);
  if (!A.kind || !B.kind) return;
  spu::Sizes k{(int64_t)below(w)};
  auto na = F.N.P.nbits(A.sh[0].eltype());
  switch (below(14)) {
    case 0: F.step("b2p", {&A}, 'p', s, A.pt, OPF { return b2p(c, v[0]).data(); }, nullptr); break;
    case 1: F.step("p2b", {&Pb}, 'b', s, Pb.pt, OPF { return p2b(c, v[0]).data(); }, nullptr); break;
    case 2: case 3: F.step("and_bb", {&A, &B}, 'b', s, F.map2(A.pt, B.pt, [](u128 x, u128 y) { return x & y; }), OPF { return and_bb(c, v[0], v[1]).data(); }, nullptr); break;
    case 4: F.step("and_bp", {&A, &Pb}, 'b', s, F.map2(A.pt, Pb.pt, [](u128 x, u128 y) { return x & y; }), OPF { return and_bp(c, v[0], v[1]).data(); }, nullptr); break;
    case 5: F.step("xor_bb", {&A, &B}, 'b', s, F.map2(A.pt, B.pt, [](u128 x, u128 y) { return x ^ y; }), OPF { return xor_bb(c, v[0], v[1]).data(); }, nullptr); break;
    case 6: F.step("xor_bp", {&A, &Pb}, 'b', s, F.map2(A.pt, Pb.pt, [](u128 x, u128 y) { return x ^ y; }), OPF { return xor_bp(c, v[0], v[1]).data(); }, nullptr); break;
    case 7: F.step("lshift_b by " + std::to_string(k[0]), {&A}, 'b', s, F.map(A.pt, [=](u128 x) { return x << k[0]; }), OPF { return lshift_b(c, v[0], k).data(); }, nullptr); break;
    case 8: F.step("rshift_b by " + std::to_string(k[0]), {&A}, 'b', s, F.map(A.pt, [=](u128 x) { return x >> k[0]; }), OPF { return rshift_b(c, v[0], k).data(); }, nullptr); break;
    case 9: if (F.canArs(A)) F.step("arshift_b by " + std::to_string(k[0]), {&A}, 'b', s, F.map(A.pt, [=](u128 x) { return (u128)(sx(x, w) >> k[0]); }), OPF { return arshift_b(c, v[0], k).data(); }, nullptr); break;
    case 10: {
      size_t e = below(w + 1), b = below(e + 1);
      F.step("bitrev_b [" + std::to_string(b) + "," + std::to_string(e) + ")", {&A}, 'b', s, F.map(A.pt, [=](u128 x) { u128 r = 0; for (size_t i = 0; i < (size_t)w; i++) { size_t src = i >= b && i < e ? b + e - 1 - i : i; if (x >> src & 1) r |= (u128)1 << i; } return r; }), OPF { return bitrev_b(c, v[0], b, e).data(); }, nullptr);
      break;
    }
    case 11: case 12: {
      if (!F.has("bitintl_b")) break;
      int nb = 1 << below(bw(w - 1) + 1); 
      Val X = F.getB(s, nb);
      if (!X.kind) break;
      size_t d = F.N.P.nbits(X.sh[0].eltype());
      if (d == 0 || (d & (d - 1))) break;
      size_t st = below(5); bool in = below(2);
      if (in) F.step("bitintl_b stride " + std::to_string(st) + " of " + std::to_string(d) + " bits", {&X}, 'b', s, F.map(X.pt, [=](u128 x) { return permbits(x, w, st, d, true); }), OPF { return bitintl_b(c, v[0], st).data(); }, nullptr);
      else F.step("bitdeintl_b stride " + std::to_string(st) + " of " + std::to_string(d) + " bits", {&X}, 'b', s, F.map(X.pt, [=](u128 x) { return permbits(x, w, st, d, false); }), OPF { return bitdeintl_b(c, v[0], st).data(); }, nullptr);
      break;
    }
    case 13: {
      if (F.has("rand_b")) F.step("rand_b", {}, 'b', s, {}, OPF { return rand_b(c, s).data(); }, nullptr);
      break;
    }
  }
  (void)na;
}
inline void conv(Fuzz& F) {
  Shape s = F.rshape();
  int w = F.w; u128 m = M(w);
  switch (below(9)) {
    case 0: case 1: { auto A = F.getA(s); F.step("a2b", {&A}, 'b', s, A.pt, OPF { return a2b(c, v[0]).data(); }, nullptr); break; }
    case 2: case 3: { auto A = F.getB(s); if (A.kind) F.step("b2a", {&A}, 'a', s, A.pt, OPF { return b2a(c, v[0]).data(); }, nullptr); break; }
    case 4: if (F.has("msb_a2b") || F.N.P.name != "spdz2k") { auto A = F.forMsb(s, F.getA(s)); if (F.has("msb_a2b")) F.step("msb_a2b", {&A}, 'b', s, F.map(A.pt, [=](u128 x) { return x >> (w - 1) & 1; }), OPF { return msb_a2b(c, v[0]).data(); }, nullptr); } break;
    case 5: if (F.has("equal_aa")) { auto A = F.getA(s); auto B = F.getA(s); if (below(2)) B = A; F.step("equal_aa", {&A, &B}, 'b', s, F.map2(A.pt, B.pt, [](u128 x, u128 y) { return (u128)(x == y); }), OPF { return equal_aa(c, v[0], v[1]).data(); }, nullptr); } break;
    case 6: if (F.has("equal_ap")) { auto A = F.getA(s); auto B = below(2) ? F.publ(s, A.pt) : F.getP(s); F.step("equal_ap", {&A, &B}, 'b', s, F.map2(A.pt, B.pt, [](u128 x, u128 y) { return (u128)(x == y); }), OPF { return equal_ap(c, v[0], v[1]).data(); }, nullptr); } break;
    case 7: { auto A = F.getB(s); auto B = F.getB(s); if (A.kind && B.kind) B = below(2) ? A : F.getB(s, F.N.P.nbits(A.sh[0].eltype()) ? F.N.P.nbits(A.sh[0].eltype()) : 1); if (A.kind && B.kind && F.has("and_bb") && F.N.P.nbits(A.sh[0].eltype()) == F.N.P.nbits(B.sh[0].eltype())) F.step("add_bb", {&A, &B}, 'b', s, F.map2(A.pt, B.pt, [=](u128 x, u128 y) { return (x + y) & m; }), OPF { return add_bb(c, v[0], v[1]).data(); }, nullptr); break; }
    case 8: if (F.has("b2a_disassemble")) {
      auto A = F.getB(s, 1 + below(w)); if (!A.kind) break;
      size_t nb = F.N.P.nbits(A.sh[0].eltype()); if (!nb) break;
      size_t k = below(nb);
      F.step("b2a_disassemble bit " + std::to_string(k) + " of " + std::to_string(nb), {&A}, 'a', s, F.map(A.pt, [=](u128 x) { return x >> k & 1; }), OPF { auto r = dynDispatch<std::vector<Value>>(c, "b2a_disassemble", v[0]); SPU_ENFORCE(r.size() == nb, "number of bits"); return r[k].data(); }, nullptr);
    } break;
  }
}
// |difference| at most one unit in the last place, as the protocol documents, for operands far from the ring's ends
inline void trunc(Fuzz& F) {
  Shape s = F.rshape();
  int w = F.w;
  std::string nm = F.N.P.truncs[below(F.N.P.truncs.size())];
  if (!F.has(nm.c_str())) return;
  auto* kn = dynamic_cast<TruncAKernel*>(F.N.c[0]->prot()->getKernel(nm));
  bool err = kn->hasMsbError();
  int mag = err ? w - 45 : w - 2;           // with a wrap error, its probability is kept below 2^-43
  if (mag < 4) return;
  V x = F.randv(s.numel(), mag);
  auto sg = (spu::SignType)below(3);
  for (auto& v : x) { if (sg == spu::SignType::Unknown ? below(2) : sg == spu::SignType::Negative) v = (-v) & M(w); if (sg == spu::SignType::Negative && v == 0) v = M(w); }
  auto A = F.secret(s, x);
  size_t k = below(std::min(mag, w - 1) - 1) + 1;
  F.step(nm + " by " + std::to_string(k) + " sign " + std::to_string((int)sg), {&A}, 'a', s, F.map(A.pt, [=](u128 v) { return (u128)(sx(v, w) >> k); }), OPF { return nm == "trunc_a" ? trunc_a(c, v[0], k, sg).data() : dynDispatch(c, nm, v[0], k, sg).data(); }, nullptr, -1,
         [=](u128 g, u128 e) { i128 d = sx(g - e, w); return d >= -1 && d <= 1; });
}
inline V invert(const V& p) { V r(p.size()); for (size_t i = 0; i < p.size(); i++) r[(size_t)p[i]] = i; return r; }
inline void perm(Fuzz& F) {
  int64_t n = 1 + below(20);
  Shape s{n};
  int w = F.w;
  V pi(n);
  for (int64_t i = 0; i < n; i++) pi[i] = i;
  for (int64_t i = n - 1; i > 0; i--) std::swap(pi[i], pi[below(i + 1)]);
  auto A = F.secret(s, F.randv(n, w));
  auto P = F.publ(s, pi);
  V fw(n), bk(n);
  for (int64_t i = 0; i < n; i++) { fw[i] = A.pt[(size_t)pi[i]]; bk[(size_t)pi[i]] = A.pt[i]; }
  switch (below(5)) {
    case 0: if (F.has("perm_ap")) F.step("perm_ap", {&A, &P}, 'a', s, fw, OPF { return dynDispatch(c, "perm_ap", v[0], v[1]).data(); }, nullptr, -1, nullptr, false); break;
    case 1: if (F.has("inv_perm_ap")) F.step("inv_perm_ap", {&A, &P}, 'a', s, bk, OPF { return dynDispatch(c, "inv_perm_ap", v[0], v[1]).data(); }, nullptr, -1, nullptr, false); break;
    case 2: if (F.has("inv_perm_av")) { int o = below(F.N.P.n); auto Q = F.priv(s, pi, o); F.step("inv_perm_av", {&A, &Q}, 'a', s, bk, OPF { return dynDispatch(c, "inv_perm_av", v[0], v[1]).data(); }, nullptr, -1, nullptr, false); } break;
    case 3: case 4: if (F.has("rand_perm_m") && F.has("perm_am") && F.has("inv_perm_am")) {
      // one secret random permutation: applied and undone gives the array back; applied to two arrays it moves both alike
      std::vector<NdArrayRef> pm(F.N.P.n);
      auto e = F.N.each([&](size_t p) { pm[p] = dynDispatch(F.N.c[p].get(), "rand_perm_m", s).data(); });
      if (!e.empty()) { fail("rand_perm_m", "rand_perm_m raised: " + e); F.N.start(); F.pool.clear(); break; }
      V ix(n); for (int64_t i = 0; i < n; i++) ix[i] = i;
      auto I = F.secret(s, ix);
      Val i1;
      if (!F.step("perm_am", {&I}, 'a', s, {}, OPF { return dynDispatch(c, "perm_am", v[0], wrap(pm[rank])).data(); }, &i1, -1, nullptr, false)) break;
      std::vector<char> seen(n, 0);
      bool okp = true;
      for (auto x : i1.pt) { if (x >= (u128)n || seen[(size_t)x]) okp = false; else seen[(size_t)x] = 1; }
      if (!okp) { fail("perm_am", "perm_am of the identity is not a permutation"); break; }
      V want(n), wantb(n);
      for (int64_t i = 0; i < n; i++) { want[i] = A.pt[(size_t)i1.pt[i]]; wantb[(size_t)i1.pt[i]] = A.pt[i]; }
      F.step("perm_am", {&A}, 'a', s, want, OPF { return dynDispatch(c, "perm_am", v[0], wrap(pm[rank])).data(); }, nullptr, -1, nullptr, false);
      F.step("inv_perm_am", {&A}, 'a', s, wantb, OPF { return dynDispatch(c, "inv_perm_am", v[0], wrap(pm[rank])).data(); }, nullptr, -1, nullptr, false);
    } break;
  }
}
// kernels on public values and on values known to one party: ordering, grouping, equality, matrix products
inline void pubpriv(Fuzz& F) {
  int64_t n = 1 + below(20);
  Shape s{n};
  int w = F.w;
  bool isv = below(2);
  int o = below(F.N.P.n);
  auto mk = [&](const Shape& sh, const V& v) {
    Val P = F.publ(sh, v), r;
    if (!isv) return P;
    F.step("p2v", {&P}, 'v', sh, v, OPF { return p2v(c, v[0], o).data(); }, &r, o, nullptr, false);
    return r;
  };
  auto dup = [&](int64_t k) { V v = F.randv(k, w); V u = F.randv(1 + below(4), w); if (below(3)) for (auto& x : v) x = u[below(u.size())]; return v; };
  char k = isv ? 'v' : 'p';
  int ow = isv ? o : -1;
  std::string sf = isv ? "_v" : "_p";
  auto sxl = [=](u128 a, u128 b) { return sx(a, w) < sx(b, w); };
  switch (below(8)) {
    case 7: {
      Shape s3 = F.rshape(); u128 iv = F.randv(1, 128)[0];
      F.step("make_p of " + hex(iv), {}, 'p', s3, V(s3.numel(), iv & M(w)), OPF { return make_p(c, iv, s3).data(); }, nullptr, -1, nullptr, false);
      break;
    }
    case 0: case 1: {
      auto X = mk(s, dup(n)); if (X.sh.empty()) break;
      bool asc = below(2);
      std::vector<int64_t> ix(n); for (int64_t i = 0; i < n; i++) ix[i] = i;
      // insertion sort by definition: stable
      for (int64_t i = 1; i < n; i++) for (int64_t j = i; j > 0 && (asc ? sxl(X.pt[ix[j]], X.pt[ix[j - 1]]) : sxl(X.pt[ix[j - 1]], X.pt[ix[j]])); j--) std::swap(ix[j], ix[j - 1]);
      V want(n); for (int64_t i = 0; i < n; i++) want[ix[i]] = i;
      F.step("gen_inv_perm" + sf + (asc ? " ascending" : " descending"), {&X}, k, s, want, OPF { return dynDispatch(c, "gen_inv_perm" + sf, v[0], asc).data(); }, nullptr, ow, nullptr, false);
      break;
    }
    case 2: {
      V pi(n), fw(n), bk(n); for (int64_t i = 0; i < n; i++) pi[i] = i;
      for (int64_t i = n - 1; i > 0; i--) std::swap(pi[i], pi[below(i + 1)]);
      auto X = mk(s, F.randv(n, w)); auto Y = mk(s, pi); if (X.sh.empty() || Y.sh.empty()) break;
      for (int64_t i = 0; i < n; i++) { fw[i] = X.pt[(size_t)pi[i]]; bk[(size_t)pi[i]] = X.pt[i]; }
      std::string s2 = isv ? "_vv" : "_pp";
      if (below(2)) F.step("perm" + s2, {&X, &Y}, k, s, fw, OPF { return dynDispatch(c, "perm" + s2, v[0], v[1]).data(); }, nullptr, ow, nullptr, false);
      else F.step("inv_perm" + s2, {&X, &Y}, k, s, bk, OPF { return dynDispatch(c, "inv_perm" + s2, v[0], v[1]).data(); }, nullptr, ow, nullptr, false);
      break;
    }
    case 3: case 4: {
      size_t c_ = 1 + below(3);
      std::vector<Val> xs; for (size_t j = 0; j < c_; j++) { xs.push_back(mk(s, dup(n))); if (xs.back().sh.empty()) return; }
      std::vector<Val*> in; for (auto& x : xs) in.push_back(&x);
      auto same = [&](int64_t i, int64_t j) { for (auto& x : xs) if (x.pt[i] != x.pt[j]) return false; return true; };
      V want(n, 0);
      bool f = below(2);
      if (below(2)) {
        for (int64_t i = 1; i < n; i++) want[i] = (want[i - 1] + (same(i, i - 1) ? 0 : f ? 1 : -1)) & M(w);
        F.step("merge_keys" + sf, in, k, s, want, OPF { return dynDispatch(c, "merge_keys" + sf, v, f).data(); }, nullptr, ow, nullptr, false);
      } else {
        for (int64_t i = 0; i < n; i++) want[i] = f ? (i == n - 1 || !same(i, i + 1)) : (i > 0 && same(i, i - 1));
        F.step("group_mark" + sf + (f ? " ends" : " starts"), in, k, s, want, OPF { return dynDispatch(c, "group_mark" + sf, v, f).data(); }, nullptr, ow, nullptr, false);
      }
      break;
    }
    case 5: {
      auto X = mk(s, dup(n)); if (X.sh.empty()) break;
      V y = X.pt; for (auto& t : y) if (below(3) == 0) t = F.randv(1, w)[0]; else if (below(3) == 0) t ^= (u128)1 << below(w);
      bool vp = isv && below(2);
      Val Y = vp ? F.publ(s, y) : mk(s, y); if (Y.sh.empty()) break;
      std::string nm = isv ? (vp ? "equal_vp" : "equal_vvv") : "equal_pp";
      F.step(nm, {&X, &Y}, k, s, F.map2(X.pt, Y.pt, [](u128 a, u128 b) { return (u128)(a == b); }), OPF { return dynDispatch(c, nm, v[0], v[1]).data(); }, nullptr, ow, nullptr, false);
      break;
    }
    case 6: {
      int64_t m = 1 + below(4), q = 1 + below(5), r = 1 + below(4);
      auto X = mk({m, q}, F.randv(m * q, w)); if (X.sh.empty()) break;
      bool vp = isv && below(2);
      Val Y = vp ? F.publ({q, r}, F.randv(q * r, w)) : mk({q, r}, F.randv(q * r, w)); if (Y.sh.empty()) break;
      V want(m * r, 0);
      for (int64_t i = 0; i < m; i++) for (int64_t j = 0; j < r; j++) { u128 t = 0; for (int64_t l = 0; l < q; l++) t += X.pt[i * q + l] * Y.pt[l * r + j]; want[i * r + j] = t & M(w); }
      std::string nm = isv ? (vp ? "mmul_vp" : "mmul_vvv") : "mmul_pp";
      F.step(nm, {&X, &Y}, k, {m, r}, want, OPF { return dynDispatch(c, nm, v[0], v[1]).data(); }, nullptr, ow, nullptr, false);
      break;
    }
  }
}
inline void drive(std::vector<Fuzz*> fs, int groups) {
  while (time_left()) {
    for (auto* F : fs) {
      if (!time_left()) break;
      if (F->pool.size() > 20 && below(10) == 0) F->pool.clear();
      for (int g = 0; g < 7; g++) {
        if (!(groups >> g & 1)) continue;
        for (int k = 0; k < (g == 3 || g == 4 ? 1 : 3); k++)
          switch (g) { case 0: arith(*F); break; case 1: boolean(*F); break; case 2: conv(*F); break; case 3: trunc(*F); break; case 4: perm(*F); break; case 5: api(*F); break; case 6: pubpriv(*F); break; }
      }
    }
  }
}
}  // namespace vp
