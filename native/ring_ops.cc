#include "arrays.h"
#include "libspu/mpc/utils/ring_ops.h"
using namespace vn;
using namespace spu::mpc;

typedef std::function<u128(u128, u128, int)> F2;
static void expect(const std::string& key, const NdArrayRef& r, const std::vector<u128>& e, int w, const std::string& desc) {
  auto v = vals(r, w);
  if (v.size() != e.size()) { fail(key, desc + ": wrong number of elements"); return; }
  for (size_t i = 0; i < v.size(); i++)
    if (v[i] != (e[i] & mask(w))) { fail(key, desc + " element " + std::to_string(i) + ": got " + hex(v[i]) + " expected " + hex(e[i] & mask(w))); return; }
}
static u128 rev(u128 v, size_t s, size_t e, int w) {
  u128 r = 0;
  for (int i = 0; i < w; i++) {
    int src = ((size_t)i >= s && (size_t)i < e) ? (int)(s + e - 1 - i) : i;
    r |= ((v >> src) & 1) << i;
  }
  return r;
}
int main(int argc, char** argv) {
  init(argc, argv);
  uint64_t iter = 0;
  struct Op2 { const char* n; NdArrayRef (*f)(const NdArrayRef&, const NdArrayRef&); void (*g)(NdArrayRef&, const NdArrayRef&); F2 s; };
  std::vector<Op2> o2 = {
      {"add", ring_add, ring_add_, [](u128 a, u128 b, int) { return a + b; }},
      {"sub", ring_sub, ring_sub_, [](u128 a, u128 b, int) { return a - b; }},
      {"mul", ring_mul, ring_mul_, [](u128 a, u128 b, int) { return a * b; }},
      {"and", ring_and, ring_and_, [](u128 a, u128 b, int) { return a & b; }},
      {"xor", ring_xor, ring_xor_, [](u128 a, u128 b, int) { return a ^ b; }},
      {"equal", ring_equal, ring_equal_, [](u128 a, u128 b, int) { return (u128)(a == b); }},
  };
  // large arrays: crosses the parallel task size
  for (auto f : {FM32, FM64, FM128}) {
    int w = width(f);
    Shape sh = {50000 * 2 + 77};
    auto x = rarr(makeType<RingTy>(f), sh, w), y = rarr(makeType<RingTy>(f), sh, w);
    auto a = vals(x, w), b = vals(y, w);
    for (auto& o : o2) {
      std::string d = std::string(o.n) + " large FM" + std::to_string(w);
      nothrow(o.n, d, [&] {
        auto r = o.f(x, y);
        std::vector<u128> e(a.size());
        for (size_t i = 0; i < e.size(); i++) e[i] = o.s(a[i], b[i], w);
        expect(o.n, r, e, w, d);
        count(d);
      });
    }
  }
  while (time_left()) {
    iter++;
    auto f = rfield();
    int w = width(f);
    auto sh = rshape();
    auto ty = makeType<RingTy>(f);
    auto x = rarr(ty, sh, w), y = rarr(ty, sh, w);
    if (below(6) == 0) for (int64_t i = 0; i < count_of(sh); i++) put(y, i, w / 8, get(x, i, w / 8));
    auto a = vals(x, w), b = vals(y, w);
    std::string in = "FM" + std::to_string(w) + " shape=" + shows(sh) + " x=" + showv(a) + " y=" + showv(b);
    for (auto& o : o2) {
      std::string d = std::string("ring_") + o.n + " " + in;
      std::vector<u128> e(a.size());
      for (size_t i = 0; i < e.size(); i++) e[i] = o.s(a[i], b[i], w);
      nothrow(o.n, d, [&] {
        auto r = o.f(x, y);
        expect(o.n, r, e, w, d);
        if (r.shape() != sh) fail(o.n, d + " shape changed");
        expect(o.n, x, a, w, d + " operand x modified");
        expect(o.n, y, b, w, d + " operand y modified");
        auto z = rarr(ty, sh, w, true);
        for (size_t i = 0; i < a.size(); i++) put(z, i, w / 8, a[i]);
        std::vector<char> before((char*)z.buf()->data(), (char*)z.buf()->data() + z.buf()->size());
        o.g(z, y);
        expect(std::string(o.n) + "_", z, e, w, d + " in place");
        // storage outside the view is untouched
        std::vector<bool> own(before.size(), false);
        for (size_t i = 0; i < a.size(); i++) { size_t p = (char*)addr(z, i) - (char*)z.buf()->data(); for (int q = 0; q < w / 8; q++) own[p + q] = true; }
        for (size_t p = 0; p < before.size(); p++) if (!own[p] && before[p] != ((char*)z.buf()->data())[p]) { fail(std::string(o.n) + "_frame", d + " wrote outside the view"); break; }
      });
      count(d);
    }
    nothrow("unary", in, [&] {
      std::vector<u128> e1(a.size()), e2(a.size());
      for (size_t i = 0; i < a.size(); i++) { e1[i] = ~a[i]; e2[i] = 0 - a[i]; }
      expect("not", ring_not(x), e1, w, "ring_not " + in);
      expect("neg", ring_neg(x), e2, w, "ring_neg " + in);
      auto z = x.clone(); ring_not_(z); expect("not_", z, e1, w, "ring_not_ " + in);
      z = x.clone(); ring_neg_(z); expect("neg_", z, e2, w, "ring_neg_ " + in);
      u128 c = edgy();
      std::vector<u128> e(a.size());
      for (size_t i = 0; i < a.size(); i++) e[i] = a[i] * c;
      expect("mul_c", ring_mul(x, c), e, w, "ring_mul scalar " + hex(c) + " " + in);
      z = x.clone(); ring_mul_(z, c); expect("mul_c_", z, e, w, "ring_mul_ scalar " + hex(c) + " " + in);
      expect("mul_c_rv", ring_mul(x.clone(), c), e, w, "ring_mul(&&) scalar " + hex(c) + " " + in);
    });
    nothrow("shift", in, [&] {
      bool per = below(2) && a.size() > 1;
      Sizes bits;
      for (size_t i = 0; i < (per ? a.size() : 1); i++) bits.push_back(below(4) ? below(w) : (below(2) ? 0 : w - 1));
      std::vector<u128> l(a.size()), r(a.size()), s(a.size());
      std::string bd = " bits=";
      for (auto q : bits) bd += std::to_string(q) + ",";
      for (size_t i = 0; i < a.size(); i++) {
        int q = per ? bits[i] : bits[0];
        l[i] = a[i] << q; r[i] = a[i] >> q; s[i] = (u128)(sx(a[i], w) >> q);
      }
      expect("lshift", ring_lshift(x, bits), l, w, "ring_lshift" + bd + in);
      expect("rshift", ring_rshift(x, bits), r, w, "ring_rshift" + bd + in);
      expect("arshift", ring_arshift(x, bits), s, w, "ring_arshift" + bd + in);
      auto z = x.clone(); ring_lshift_(z, bits); expect("lshift_", z, l, w, "ring_lshift_" + bd + in);
      z = x.clone(); ring_rshift_(z, bits); expect("rshift_", z, r, w, "ring_rshift_" + bd + in);
      z = x.clone(); ring_arshift_(z, bits); expect("arshift_", z, s, w, "ring_arshift_" + bd + in);
    });
    nothrow("bits", in, [&] {
      size_t s = below(w + 1), e = s + below(w + 1 - s);
      if (below(4) == 0) e = w;
      if (below(4) == 0) s = 0;
      std::vector<u128> v(a.size());
      for (size_t i = 0; i < a.size(); i++) v[i] = rev(a[i], s, e, w);
      std::string d = "[" + std::to_string(s) + "," + std::to_string(e) + ") " + in;
      expect("bitrev", ring_bitrev(x, s, e), v, w, "ring_bitrev" + d);
      auto z = x.clone(); ring_bitrev_(z, s, e); expect("bitrev_", z, v, w, "ring_bitrev_" + d);
      if (s < e) {
        for (size_t i = 0; i < a.size(); i++) v[i] = a[i] & (mask(e) & ~(s ? mask(s) : 0));
        expect("bitmask", ring_bitmask(x, s, e), v, w, "ring_bitmask" + d);
        z = x.clone(); ring_bitmask_(z, s, e); expect("bitmask_", z, v, w, "ring_bitmask_" + d);
      }
    });
    nothrow("misc", in, [&] {
      size_t k = 1 + below(5);
      std::vector<NdArrayRef> xs;
      std::vector<u128> sum(a.size(), 0);
      for (size_t j = 0; j < k; j++) { xs.push_back(rarr(ty, sh, w)); auto q = vals(xs.back(), w); for (size_t i = 0; i < q.size(); i++) sum[i] += q[i]; }
      auto keep = vals(xs[0], w);
      expect("sum", ring_sum(xs), sum, w, "ring_sum of " + std::to_string(k) + " " + in);
      expect("sum", xs[0], keep, w, "ring_sum modified its operand " + in);
      expect("zeros", ring_zeros(f, sh), std::vector<u128>(a.size(), 0), w, "ring_zeros " + in);
      expect("ones", ring_ones(f, sh), std::vector<u128>(a.size(), 1), w, "ring_ones " + in);
      for (auto q : vals(ring_randbit(f, sh), w)) if (q > 1) fail("randbit", "ring_randbit gave " + hex(q));
      auto z = layout(ty, sh, true); ring_assign(z, y); expect("assign", z, b, w, "ring_assign " + in);
      auto cb = ring_cast_boolean(x);
      if (cb.size() != a.size()) fail("cast_boolean", "size " + in);
      else for (size_t i = 0; i < a.size(); i++) if (cb[i] != (a[i] & 1)) fail("cast_boolean", "ring_cast_boolean " + in);
      std::vector<uint8_t> c(a.size());
      for (auto& q : c) q = below(3) ? below(2) : rnd();
      std::vector<u128> se(a.size());
      for (size_t i = 0; i < a.size(); i++) se[i] = c[i] ? b[i] : a[i];
      expect("select", ring_select(c, x, y), se, w, "ring_select " + in);
      size_t n = 2 + below(4);
      auto sp = ring_rand_additive_splits(x, n);
      std::vector<u128> t(a.size(), 0), t2(a.size(), 0);
      for (auto& q : sp) { auto v = vals(q, w); for (size_t i = 0; i < v.size(); i++) t[i] += v[i]; }
      for (auto& q : t) q &= mask(w);
      if (sp.size() != n || t != a) fail("additive_splits", "ring_rand_additive_splits n=" + std::to_string(n) + " " + in);
      auto sb = ring_rand_boolean_splits(x, n);
      for (auto& q : sb) { auto v = vals(q, w); for (size_t i = 0; i < v.size(); i++) t2[i] ^= v[i]; }
      if (sb.size() != n || t2 != a) fail("boolean_splits", "ring_rand_boolean_splits n=" + std::to_string(n) + " " + in);
      if (!ring_all_equal(x, x.clone())) fail("all_equal", "array not equal to its copy " + in);
      if (ring_all_equal(x, y) != (a == b)) {
        // |x-y| of INT_MIN wraps: the comparison is only specified when the difference is representable
        bool amb = false;
        for (size_t i = 0; i < a.size(); i++) if (((a[i] - b[i]) & mask(w)) == ((u128)1 << (w - 1))) amb = true;
        if (!amb) fail("all_equal", "ring_all_equal " + in);
      }
    });
    nothrow("mmul", in, [&] {
      int64_t M = 1 + below(6), K = 1 + below(6), N = 1 + below(6);
      if (below(30) == 0) { M = 1 + below(40); K = 1 + below(40); N = 1 + below(40); }
      auto p = rarr(ty, {M, K}, w), q = rarr(ty, {K, N}, w);
      auto pv = vals(p, w), qv = vals(q, w);
      std::vector<u128> e(M * N, 0);
      for (int64_t i = 0; i < M; i++) for (int64_t j = 0; j < N; j++) for (int64_t k = 0; k < K; k++) e[i * N + j] += pv[i * K + k] * qv[k * N + j];
      std::string d = "ring_mmul FM" + std::to_string(w) + " M,K,N=" + std::to_string(M) + "," + std::to_string(K) + "," + std::to_string(N) + " A=" + showv(pv) + " B=" + showv(qv);
      expect("mmul", ring_mmul(p, q), e, w, d);
      auto z = rarr(ty, {M, N}, w, true);
      ring_mmul_(z, p, q);
      expect("mmul_", z, e, w, d + " (in place)");
      count(d);
      u128 lo = edgyw(w), len = below(3) ? below(1000) : 0;
      if (len <= mask(w) - lo) for (auto r : vals(ring_rand_range(f, sh, lo, lo + len), w)) if (r < lo || r > lo + len) fail("rand_range", "ring_rand_range [" + hex(lo) + "," + hex(lo + len) + "] FM" + std::to_string(w) + " gave " + hex(r));
    });
  }
  return finish();
}
