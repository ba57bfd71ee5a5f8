// Correlated randomness of the trusted-first-party dealer, evaluated on random histories of requests.
#include <thread>
#include "common.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.h"
#include "libspu/mpc/utils/gfmp_ops.h"
#include "libspu/mpc/utils/ring_ops.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/link/test_util.h"
using namespace vn;
using namespace spu;
using namespace spu::mpc;
using spu::mpc::semi2k::Beaver;
using spu::mpc::semi2k::BeaverTfpUnsafe;
typedef Beaver::ReplayDesc Desc;
static u128 word(const yacl::Buffer& b, size_t i, size_t es) { u128 v = 0; memcpy(&v, b.data<uint8_t>() + i * es, es); return v; }
static u128 mask(int w) { return w == 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
struct H {
  FieldType f0 = (FieldType)(1 + below(3)); int64_t m0 = 1 + below(20), d0[3] = {1 + (int64_t)below(4), 1 + (int64_t)below(4), 1 + (int64_t)below(4)};
  size_t n; std::vector<std::shared_ptr<yacl::link::Context>> l; std::vector<std::unique_ptr<Beaver>> b; std::string h;
  struct Sess { FieldType f; int64_t size, r, c; int kind; std::vector<Desc> d; std::vector<std::vector<u128>> sh; };
  std::vector<Sess> ss; std::set<std::vector<u128>> masks;
  template <class F> void all(F f) {
    std::vector<std::thread> t; std::vector<std::string> e(n);
    for (size_t p = 0; p < n; p++) t.emplace_back([&, p] { verif::entropy() = 91 + p + 100 * masks.size(); try { f(p); } catch (const std::exception& x) { e[p] = x.what(); } });
    for (auto& x : t) x.join();
    for (auto& x : e) if (!x.empty()) { fail("raise", h + ": " + x); throw std::runtime_error("raised"); }
  }
  // shares as words, [array][party][index]
  std::vector<std::vector<std::vector<u128>>> W;
  void put(size_t j, size_t p, const yacl::Buffer& x, int64_t m, size_t es) {
    if (x.size() != (int64_t)(m * es)) fail("size", h);
    auto& v = W[j][p]; v.clear();
    for (int64_t i = 0; i < m; i++) v.push_back(word(x, i, es));
  }
  u128 tot(size_t j, size_t i, int w) { u128 s = 0; for (size_t p = 0; p < n; p++) s += W[j][p][i]; return s & mask(w); }
  u128 xtot(size_t j, size_t i) { u128 s = 0; for (size_t p = 0; p < n; p++) s ^= W[j][p][i]; return s; }
  void used(size_t j, const char* what) {   // fresh masks: long ones are never seen before
    for (size_t p = 1; p < n; p++) {
      std::vector<u128> k; for (size_t i = 0; i < W[j][p].size() && i < 4; i++) k.push_back(W[j][p][i] & mask(32));
      if (k.size() < 4) continue;
      k.push_back(p);
      if (!masks.insert(k).second) fail(std::string("reuse-") + what, h + ": party " + std::to_string(p) + " got the same mask twice");
    }
  }
  // 0 none, 1 new session, 2 replay
  Sess* pick(int kind, FieldType f, int64_t size, int64_t r, int64_t c, int& mode, bool tr) {
    mode = below(3);
    if (mode == 0) return nullptr;
    if (mode == 2) {
      for (int t = 0; t < 8 && !ss.empty(); t++) {
        auto& s = ss[below(ss.size())];
        if (s.kind != kind || s.f != f || s.size != size) continue;
        if (kind == 1 && s.r == r && s.c == c) { return &s; }
        if (kind == 1 && tr && s.r == c && s.c == r) { mode = 3; return &s; }
        if (kind != 1) return &s;
      }
      mode = 1;
    }
    ss.push_back({f, size, r, c, kind, std::vector<Desc>(n), {}});
    for (auto& d : ss.back().d) d.status = Beaver::Init;
    return &ss.back();
  }
  void check(Sess* s, int mode, size_t j, const char* what) {
    if (mode == 0) { used(j, what); return; }
    if (mode == 1) { s->sh = W[j]; used(j, what); return; }
    for (size_t p = 0; p < n; p++) for (int64_t i = 0; i < s->size; i++) {
      int64_t k = mode == 3 ? (i % s->r) * s->c + i / s->r : i;
      if (W[j][p][i] != s->sh[p][k]) { fail("replay", h + ": party " + std::to_string(p)); return; }
    }
  }
  static void pre(Sess* s, int mode) { if (s) for (auto& d : s->d) d.status = mode == 1 ? Beaver::Init : mode == 2 ? Beaver::Replay : Beaver::TransposeReplay; }
  void step() {
    int k = below(11); h += std::to_string(k); setcase(h);
    FieldType f = below(5) ? f0 : (FieldType)(1 + below(3)); int w = 16 << (int)f; size_t es = w / 8; int64_t m = below(2) ? m0 : 1 + below(20);
    W.assign(3, std::vector<std::vector<u128>>(n));
    h += "/" + std::to_string(w) + "/" + std::to_string(m) + " ";
    ss.reserve(512);
    switch (k) {
      case 0: case 1: {
        bool g = k == 1; int mx, my; auto* x = pick(g ? 3 : 0, f, m, 0, 0, mx, false); pre(x, mx); auto* y = pick(g ? 3 : 0, f, m, 0, 0, my, false);
        if (y && y == x) { y = nullptr; my = 0; } pre(y, my);
        all([&](size_t p) { auto [a, b_, c] = b[p]->Mul(f, m, x ? &x->d[p] : nullptr, y ? &y->d[p] : nullptr, g ? ElementType::kGfmp : ElementType::kRing); put(0, p, a, m, es); put(1, p, b_, m, es); put(2, p, c, m, es); });
        u128 P = (((u128)1) << (w == 32 ? 31 : w == 64 ? 61 : 127)) - 1;
        for (int64_t i = 0; i < m; i++) {
          if (!g) { if (tot(2, i, w) != ((tot(0, i, w) * tot(1, i, w)) & mask(w))) fail("Mul", h); }
          else {
            auto t = [&](int j) { u128 s = 0; for (size_t p = 0; p < n; p++) { u128 v = W[j][p][i]; if (v >= P) fail("Mul-gfmp-range", h); s = (s + v) % P; } return s; };
            u128 A = t(0), B = t(1), R = 0; for (int q = 127; q >= 0; q--) { R = (R + R) % P; if ((A >> q) & 1) R = (R + B) % P; }
            if (t(2) != R) fail("Mul-gfmp", h);
          }
        }
        check(x, mx, 0, "Mul.a"); check(y, my, 1, "Mul.b"); used(2, "Mul.c"); break;
      }
      case 2: {
        if (n != 2) break;
        all([&](size_t p) { auto [a, c] = b[p]->MulPriv(f, m, ElementType::kRing); put(0, p, a, m, es); put(1, p, c, m, es); });
        for (int64_t i = 0; i < m; i++) if (tot(1, i, w) != ((W[0][0][i] * W[0][1][i]) & mask(w))) fail("MulPriv", h);
        used(0, "MulPriv.a"); used(1, "MulPriv.c"); break;
      }
      case 3: {
        int mx; auto* x = pick(2, f, m, 0, 0, mx, false); pre(x, mx);
        all([&](size_t p) { auto [a, c] = b[p]->Square(f, m, x ? &x->d[p] : nullptr); put(0, p, a, m, es); put(1, p, c, m, es); });
        for (int64_t i = 0; i < m; i++) if (tot(1, i, w) != ((tot(0, i, w) * tot(0, i, w)) & mask(w))) fail("Square", h);
        check(x, mx, 0, "Square.a"); used(1, "Square.c"); break;
      }
      case 4: case 10: {
        int64_t M = d0[below(3)], N = d0[below(3)], K = d0[below(3)]; int mx, my;
        auto* x = pick(1, f, M * K, M, K, mx, true); pre(x, mx); auto* y = pick(1, f, K * N, K, N, my, true); if (y && y == x) { y = nullptr; my = 0; } pre(y, my);
        h += "(" + std::to_string(M) + "," + std::to_string(N) + "," + std::to_string(K) + " sessions " + std::to_string(mx) + std::to_string(my) + ") ";
        all([&](size_t p) { auto [a, b_, c] = b[p]->Dot(f, M, N, K, x ? &x->d[p] : nullptr, y ? &y->d[p] : nullptr); put(0, p, a, M * K, es); put(1, p, b_, K * N, es); put(2, p, c, M * N, es); });
        for (int64_t r = 0; r < M; r++) for (int64_t q = 0; q < N; q++) {
          u128 s = 0; for (int64_t t = 0; t < K; t++) s += tot(0, r * K + t, w) * tot(1, t * N + q, w);
          if (tot(2, r * N + q, w) != (s & mask(w))) { fail("Dot", h); }
        }
        check(x, mx, 0, "Dot.a"); check(y, my, 1, "Dot.b"); used(2, "Dot.c"); break;
      }
      case 5: {
        int64_t nb = 1 + below(70);
        all([&](size_t p) { auto [a, b_, c] = b[p]->And(nb); put(0, p, a, nb, 1); put(1, p, b_, nb, 1); put(2, p, c, nb, 1); });
        for (int64_t i = 0; i < nb; i++) if (xtot(2, i) != (xtot(0, i) & xtot(1, i))) fail("And", h);
        break;
      }
      case 6: {
        size_t bits = below(w);
        all([&](size_t p) { auto [a, c] = b[p]->Trunc(f, m, bits); put(0, p, a, m, es); put(1, p, c, m, es); });
        for (int64_t i = 0; i < m; i++) { u128 v = tot(0, i, w); if (w < 128 && (v >> (w - 1))) v |= ~mask(w); if (tot(1, i, w) != ((u128)((__int128)v >> bits) & mask(w))) fail("Trunc", h); }
        used(0, "Trunc.a"); break;
      }
      case 7: {
        size_t bits = below(w - 1);
        all([&](size_t p) { auto [a, c, d] = b[p]->TruncPr(f, m, bits); put(0, p, a, m, es); put(1, p, c, m, es); put(2, p, d, m, es); });
        for (int64_t i = 0; i < m; i++) { u128 v = tot(0, i, w); if (tot(1, i, w) != (((v << 1) & mask(w)) >> (bits + 1 == 128 ? 127 : bits + 1)) || tot(2, i, w) != v >> (w - 1)) fail("TruncPr", h); }
        used(0, "TruncPr.r"); break;
      }
      case 8: {
        all([&](size_t p) { auto a = b[p]->RandBit(f, m); put(0, p, a, m, es); auto [x, y] = b[p]->Eqz(f, m); put(1, p, x, m, es); put(2, p, y, m, es); });
        u128 o = 1, z = 0; for (int64_t i = 0; i < m; i++) { u128 v = tot(0, i, w); if (v > 1) fail("RandBit", h); o &= v; z |= v; if (tot(1, i, w) != (xtot(2, i) & mask(w))) fail("Eqz", h); }
        break;
      }
      default: {
        size_t pr = below(n); std::vector<Index> pi(n);
        all([&](size_t p) { auto [a, c, q] = b[p]->PermPair(f, m, pr); put(0, p, a, m, es); put(1, p, c, m, es); pi[p] = Index(q.begin(), q.end()); });
        for (size_t p = 0; p < n; p++) if (p != pr && pi[p].size()) fail("PermPair-leak", h);
        std::vector<int> c(m); if ((int64_t)pi[pr].size() != m) { fail("PermPair-size", h); break; }
        bool ok = true; for (auto x : pi[pr]) if (x < 0 || x >= m || c[x]++) ok = false;
        if (!ok) { fail("PermPair-bijection", h); break; }
        for (int64_t i = 0; i < m; i++) if (tot(1, pi[pr][i], w) != tot(0, i, w)) fail("PermPair", h);
        used(0, "PermPair.a");
      }
    }
  }
};
int main(int argc, char** argv) {
  init(argc, argv);
  int k = 0;
  while (time_left()) {
    H x; x.n = 2 + below(3); x.h = std::to_string(x.n) + " parties: "; setcase(x.h);
    x.l = yacl::link::test::SetupWorld("deal" + std::to_string(k++) + "." + std::to_string(below(100000)), x.n);
    x.b.resize(x.n);
    try {
      x.all([&](size_t p) { x.b[p] = std::make_unique<BeaverTfpUnsafe>(x.l[p]); });
      int len = 2 + below(12);
      for (int i = 0; i < len; i++) x.step();
    } catch (const std::runtime_error&) {}
    count(x.h);
  }
  return finish();
}
