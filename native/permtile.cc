// permutations and tiled execution on real arrays (small tasks, so that a few elements already span several tiles)
#include <mutex>
#include "arrays.h"
#include "libspu/core/context.h"
#include "libspu/core/value.h"
#include "libspu/mpc/utils/permute.h"
#include "libspu/mpc/utils/tiling_util.h"
using namespace vn;
using spu::mpc::tiled;
static void newcase(const std::string& s) { setcase(s); count(s); }
static FieldType rf() { FieldType f[] = {FM32, FM64, FM128}; return f[below(3)]; }
static NdArrayRef arr(FieldType f, const Shape& s, const std::vector<u128>& v) {
  auto a = layout(makeType<RingTy>(f), s, true);
  for (size_t i = 0; i < v.size(); i++) put(a, i, width(f) / 8, v[i]);
  return a;
}
static std::string shs(const Shape& s) { std::string r = "("; for (auto d : s) r += std::to_string(d) + ","; return r + ")"; }
static NdArrayRef flatarr(FieldType f, const std::vector<u128>& v) { return arr(f, {(int64_t)v.size()}, v); }
static std::vector<int64_t> perm(int64_t n) {
  std::vector<int64_t> p(n);
  for (int64_t i = 0; i < n; i++) p[i] = i;
  for (int64_t i = n - 1; i > 0; i--) std::swap(p[i], p[below(i + 1)]);
  return p;
}
static bool is_perm(const spu::Index& p, int64_t n) {
  if ((int64_t)p.size() != n) return false;
  std::vector<char> s(n, 0);
  for (auto x : p) { if (x < 0 || x >= n || s[x]) return false; s[x] = 1; }
  return true;
}
static void perms() {
  auto f = rf(), pf = rf();
  int64_t n = below(30);
  int w = width(f);
  std::vector<u128> v(n), pv(n);
  for (auto& x : v) x = edgyw(w);
  if (below(2)) for (auto& x : v) x = v[below(std::min<int64_t>(n, 4))];
  auto p = perm(n);
  for (int64_t i = 0; i < n; i++) pv[i] = p[i];
  auto x = flatarr(f, v), q = flatarr(pf, pv);
  std::string c = "n=" + std::to_string(n) + " bits=" + std::to_string(w) + "/" + std::to_string(width(pf));
  auto ok = [&](const NdArrayRef& r, const char* what, const std::function<u128(int64_t)>& e) {
    if (r.numel() != n || r.shape() != Shape{n}) { fail(what, c + ": wrong shape"); return; }
    for (int64_t i = 0; i < n; i++) if (get(r, i, r.elsize()) != e(i)) { fail(what, c + ": position " + std::to_string(i) + " holds " + hex(get(r, i, r.elsize())) + ", expected " + hex(e(i))); return; }
  };
  std::vector<int64_t> inv(n);
  for (int64_t i = 0; i < n; i++) inv[p[i]] = i;
  switch (below(7)) {
    case 0: newcase("applyPerm " + c); ok(spu::mpc::applyPerm(x, q), "applyPerm", [&](int64_t i) { return v[p[i]]; }); break;
    case 1: newcase("applyInvPerm " + c); ok(spu::mpc::applyInvPerm(x, q), "applyInvPerm", [&](int64_t i) { return v[inv[i]]; }); break;
    case 2: newcase("applyPerm span " + c); ok(spu::mpc::applyPerm(x, absl::MakeConstSpan(p)), "applyPerm-span", [&](int64_t i) { return v[p[i]]; }); break;
    case 3: newcase("applyInvPerm span " + c); ok(spu::mpc::applyInvPerm(x, absl::MakeConstSpan(p)), "applyInvPerm-span", [&](int64_t i) { return v[inv[i]]; }); break;
    case 4: newcase("genInversePerm " + c); ok(spu::mpc::genInversePerm(q), "genInversePerm", [&](int64_t i) { return (u128)inv[i]; }); break;
    case 5: {
      newcase("genPermBySort " + c);
      auto s = spu::mpc::genPermBySort(x);
      if (!is_perm(s, n)) { fail("genPermBySort", c + ": not a permutation"); break; }
      auto sx = [&](u128 a) { return w == 128 ? (i128)a : (i128)(a << (128 - w)) >> (128 - w); };
      for (int64_t i = 1; i < n; i++) {
        i128 a = sx(v[s[i - 1]]), b = sx(v[s[i]]);
        if (a > b || (a == b && s[i - 1] > s[i])) { fail("genPermBySort", c + ": not the stable order at " + std::to_string(i)); break; }
      }
      break;
    }
    case 6: {
      newcase("genRandomPerm " + c);
      u128 seed = rnd128();
      uint64_t c1 = below(1000), c2 = c1, c3;
      auto a = spu::mpc::genRandomPerm(n, seed, &c1), b = spu::mpc::genRandomPerm(n, seed, &c2);
      if (!is_perm(a, n)) fail("genRandomPerm", c + ": not a permutation");
      if (a != b || c1 != c2) fail("genRandomPerm", c + ": differs between parties with the same seed");
      c3 = c1;
      spu::mpc::genRandomPerm(n, seed, &c3);
      if (n > 1 && c3 == c1) fail("genRandomPerm", c + ": counter does not move");
      break;
    }
  }
}
static Shape tshape() {
  Shape s;
  for (uint64_t r = below(5); r-- > 0;) s.push_back(1 + below(below(3) ? 4 : 12));
  return s;
}
static void tile() {
  auto f = rf();
  int w = width(f), B = w / 8;
  Shape s = tshape();
  int64_t n = count_of(s);
  std::vector<u128> a(n), b(n);
  for (auto& x : a) x = edgyw(w);
  for (auto& x : b) x = edgyw(w);
  auto X = arr(f, s, a), Y = arr(f, s, b);
  RuntimeConfig cfg;
  cfg.protocol = spu::ProtocolKind::REF2K;
  cfg.field = f;
  cfg.experimental_enable_intra_op_par = below(8) != 0;
  SPUContext ctx(cfg, nullptr);
  std::string c = "shape " + shs(s) + " bits=" + std::to_string(w) + (cfg.experimental_enable_intra_op_par ? " tiled" : "");
  std::mutex m;
  std::set<std::string> ids;
  int64_t covered = 0;
  size_t calls = 0;
  auto note = [&](SPUContext* t, int64_t k) { std::lock_guard<std::mutex> g(m); ids.insert(t->id()); covered += k; calls++; };
  bool two = below(2), extra = below(2), wide = below(2);
  auto of = wide ? rf() : f;
  int OB = width(of) / 8;
  auto one_fn = [&](SPUContext* t, const Value& x, size_t k) {
    note(t, x.numel());
    NdArrayRef r(makeType<RingTy>(of), x.shape());
    for (int64_t i = 0; i < x.numel(); i++) put(r, i, OB, get(x.data(), i, B) * 5 + k);
    return Value(r, DT_INVALID);
  };
  auto two_fn = [&](SPUContext* t, const Value& x, const Value& y, size_t k) {
    note(t, x.numel());
    if (x.shape() != y.shape()) fail("tiled", c + ": tiles of the two operands differ in shape: " + shs(x.shape()) + " and " + shs(y.shape()));
    NdArrayRef r(makeType<RingTy>(of), x.shape());
    for (int64_t i = 0; i < x.numel(); i++) put(r, i, OB, get(x.data(), i, B) * 3 + (get(y.data(), i, B) ^ k));
    return Value(r, DT_INVALID);
  };
  size_t k = extra ? below(100) : 0;
  newcase((two ? "tiled binary " : "tiled unary ") + c);
  const Value xv(X, DT_INVALID), yv(Y, DT_INVALID);
  Value r = two ? tiled(two_fn, &ctx, xv, yv, k) : tiled(one_fn, &ctx, xv, k);
  if (r.shape() != s) { fail("tiled", c + ": result has shape " + shs(r.shape())); return; }
  if (r.storage_type() != makeType<RingTy>(of)) { fail("tiled", c + ": result has the wrong element type"); return; }
  for (int64_t i = 0; i < n; i++) {
    u128 e = (two ? a[i] * 3 + (b[i] ^ k) : a[i] * 5 + k) & mask(OB * 8);
    if (get(r.data(), i, OB) != e) { fail("tiled", c + ": element " + std::to_string(i) + " is " + hex(get(r.data(), i, OB)) + ", untiled " + hex(e)); return; }
  }
  if (covered != n) fail("tiled", c + ": the tiles hold " + std::to_string(covered) + " elements");
  if (ids.size() != calls) fail("tiled", c + ": tiles share an execution context");
  for (int64_t i = 0; i < n; i++) if (get(X, i, B) != a[i] || get(Y, i, B) != b[i]) { fail("tiled", c + ": an operand changed"); return; }
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (time_left()) {
    try { below(3) ? tile() : perms(); } catch (const std::exception& e) { fail("throws", g_case + ": " + std::string(e.what()).substr(0, 200)); }
  }
  return finish();
}
