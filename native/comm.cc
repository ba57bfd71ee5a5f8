// Collectives on threads over an in-process link, random histories of calls against what each must deliver.
#include <thread>
#include "arrays.h"
#include "libspu/mpc/common/communicator.h"
#include "libspu/mpc/common/pv2k.h"
#include "yacl/link/test_util.h"
using namespace vn;
using spu::mpc::Communicator; using spu::mpc::ReduceOp;
typedef std::vector<u128> V;
static const u128 P31 = 2147483647, P61 = ((u128)1 << 61) - 1, P127 = ((u128)1 << 127) - 1;
static V words(const NdArrayRef& a, int by) { V r; for (int64_t i = 0; i < count_of(a.shape()); i++) r.push_back(get(a, i, by)); return r; }
static u128 comb(u128 a, u128 b, int op, int w, bool gf) {
  if (op == 2) return a ^ b;
  if (!gf) return (a + b) & mask(w);
  u128 p = w == 32 ? P31 : w == 64 ? P61 : P127;
  u128 s = a + b; return s >= p ? s - p : s;
}
struct Net {
  size_t n; std::vector<std::shared_ptr<yacl::link::Context>> l; std::vector<std::unique_ptr<Communicator>> c; std::string h;
  void all(const std::function<void(size_t)>& f) {
    std::vector<std::thread> t; std::vector<std::string> e(n);
    for (size_t p = 0; p < n; p++) t.emplace_back([&, p] { try { f(p); } catch (const std::exception& x) { e[p] = x.what(); if (e[p].empty()) e[p] = "?"; l[p]->Abort(); } });
    for (auto& x : t) x.join();
    for (auto& x : e) if (!x.empty()) { fail("raise", h + ": " + x); throw std::runtime_error("raised"); }
  }
  void same(const char* k, const NdArrayRef& o, const Type& ty, const Shape& sh, const V& exp, int by, size_t p) {
    if (o.eltype() != ty) { fail(std::string(k) + "-type", h); return; }
    if (o.shape() != sh) { fail(std::string(k) + "-shape", h); return; }
    if (words(o, by) != exp) fail(k, h + ": party " + std::to_string(p) + " holds the wrong array");
  }
  void step() {
    FieldType f = (FieldType)(1 + below(3)); int w = width(f), by = w / 8;
    bool gf = below(4) == 0;
    Type ty = gf ? makeType<GfmpTy>(f) : makeType<RingTy>(f);
    Shape sh = rshape(); int64_t m = count_of(sh);
    std::vector<NdArrayRef> x; std::vector<V> v;
    for (size_t p = 0; p < n; p++) {
      x.push_back(layout(ty, sh, true));
      for (int64_t i = 0; i < m; i++) put(x[p], i, by, gf ? edgy() % (w == 32 ? P31 : w == 64 ? P61 : P127) : edgyw(w));
      v.push_back(words(x[p], by));
    }
    size_t root = below(n), kind = below(8); int op = gf ? 1 : 1 + below(2);
    h = std::to_string(n) + " parties, call " + std::to_string(kind) + ", op " + std::to_string(op) + ", root " + std::to_string(root) + ", width " + std::to_string(w) + (gf ? " field" : "") + ", " + std::to_string(m) + " elements in " + std::to_string(sh.ndim()) + " dimensions" + (x[0].isCompact() ? "" : ", strided");
    setcase(h);
    V tot = v[0];
    for (size_t p = 1; p < n; p++) for (int64_t i = 0; i < m; i++) tot[i] = comb(tot[i], v[p][i], op, w, gf);
    std::vector<NdArrayRef> o(n); std::vector<std::vector<NdArrayRef>> g(n);
    switch (kind) {
      case 0: all([&](size_t p) { o[p] = c[p]->allReduce((ReduceOp)op, x[p], "t"); });
        for (size_t p = 0; p < n; p++) same("allReduce", o[p], ty, sh, tot, by, p);
        break;
      case 1: all([&](size_t p) { o[p] = c[p]->reduce((ReduceOp)op, x[p], root, "t"); });
        same("reduce", o[root], ty, sh, tot, by, root);
        break;
      case 2: all([&](size_t p) { o[p] = c[p]->rotate(x[p], "t"); });
        for (size_t p = 0; p < n; p++) same("rotate", o[p], ty, sh, v[(p + 1) % n], by, p);
        break;
      case 3: all([&](size_t p) { g[p] = c[p]->gather(x[p], root, "t"); });
        if (g[root].size() != n) { fail("gather-size", h); break; }
        for (size_t p = 0; p < n; p++) same("gather", g[root][p], ty, sh, v[p], by, root);
        break;
      case 4: all([&](size_t p) { o[p] = c[p]->broadcast(x[p], root, ty, sh, "t"); });
        for (size_t p = 0; p < n; p++) same("broadcast", o[p], ty, sh, v[root], by, p);
        break;
      case 5: {
        size_t d = (root + 1 + below(n - 1)) % n;
        all([&](size_t p) { if (p == root) c[p]->sendAsync(d, x[p], "t"); if (p == d) o[p] = c[p]->recv(root, ty, "t"); });
        same("sendAsync/recv", o[d], ty, {m}, v[root], by, d);
        break;
      }
      default:
        if (gf) return;
        if (w == 32) typed<uint32_t>(v, m, root, op, kind); else if (w == 64) typed<uint64_t>(v, m, root, op, kind); else typed<u128>(v, m, root, op, kind);
    }
    for (size_t p = 0; p < n; p++) if (words(x[p], by) != v[p]) fail("operand", h + ": an operand changed");
    count(h);
  }
  template <class T> void typed(const std::vector<V>& v, int64_t m, size_t root, int op, size_t kind) {
    std::vector<std::vector<T>> x(n), o(n); std::vector<std::vector<std::vector<T>>> g(n);
    for (size_t p = 0; p < n; p++) for (auto e : v[p]) x[p].push_back((T)e);
    std::vector<T> tot(m, 0);
    for (size_t p = 0; p < n; p++) for (int64_t i = 0; i < m; i++) tot[i] = op == 2 ? tot[i] ^ x[p][i] : (T)(tot[i] + x[p][i]);
    size_t k = below(5), d = (root + 1 + below(n - 1)) % n;
    h += ", typed " + std::to_string(k);
    all([&](size_t p) {
      absl::Span<T const> s(x[p].data(), x[p].size());
      switch (k) {
        case 0: o[p] = op == 2 ? c[p]->allReduce<T, std::bit_xor>(s, "t") : c[p]->allReduce<T, std::plus>(s, "t"); break;
        case 1: o[p] = c[p]->rotate<T>(s, "t"); break;
        case 2: o[p] = c[p]->bcast<T>(s, root, "t"); break;
        case 3: g[p] = c[p]->gather<T>(s, root, "t"); break;
        default: if (p == root) c[p]->sendAsync<T>(d, s, "t"); if (p == d) o[p] = c[p]->recv<T>(root, "t");
      }
    });
    for (size_t p = 0; p < n; p++) {
      if (k == 0 && o[p] != tot) fail("allReduce<T>", h);
      if (k == 1 && o[p] != x[(p + 1) % n]) fail("rotate<T>", h);
      if (k == 2 && o[p] != x[root]) fail("bcast<T>", h);
    }
    if (k == 3 && g[root] != x) fail("gather<T>", h);
    if (k == 4 && o[d] != x[root]) fail("sendAsync<T>/recv<T>", h);
  }
};
int main(int argc, char** argv) {
  init(argc, argv);
  int k = 0;
  while (time_left()) {
    Net x; x.n = 2 + below(4);
    x.l = yacl::link::test::SetupWorld("comm" + std::to_string(k++) + "." + std::to_string(below(100000)), x.n);
    for (auto& l : x.l) x.c.push_back(std::make_unique<Communicator>(l));
    try { for (int i = 0; i < 20; i++) x.step(); } catch (const std::runtime_error&) {}
  }
  return finish();
}
