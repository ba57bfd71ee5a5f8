#include "arrays.h"
using namespace vn;
typedef std::vector<std::byte*> Addrs;
typedef std::vector<std::string> Content;
static std::string show(const std::vector<int64_t>& v) { std::string s = "("; for (auto x : v) s += std::to_string(x) + ","; return s + ")"; }
static std::string desc(const NdArrayRef& a) { return "array shape=" + show(a.shape()) + " strides=" + show(a.strides()) + " offset=" + std::to_string(a.offset()) + " elsize=" + std::to_string(a.elsize()); }
static std::vector<int64_t> unf(int64_t f, const std::vector<int64_t>& s) {
  std::vector<int64_t> r(s.size());
  for (int64_t d = (int64_t)s.size() - 1; d >= 0; d--) { r[d] = f % s[d]; f /= s[d]; }
  return r;
}
static int64_t fl(const std::vector<int64_t>& i, const std::vector<int64_t>& s) { int64_t r = 0; for (size_t d = 0; d < s.size(); d++) r = r * s[d] + i[d]; return r; }
static Addrs addrs(const NdArrayRef& a) { Addrs r; for (int64_t i = 0; i < count_of(a.shape()); i++) r.push_back(addr(a, i)); return r; }
static Content content(const NdArrayRef& a) { Content r; for (int64_t i = 0; i < count_of(a.shape()); i++) r.push_back(std::string((char*)addr(a, i), a.elsize())); return r; }
struct E1 { char c; }; struct E2 { char c[2]; }; struct E4 { char c[4]; }; struct E8 { char c[8]; }; struct E16 { char c[16]; }; struct E32 { char c[32]; };
template <typename E> static const std::byte* vw(const NdArrayRef& a, int64_t i) { NdArrayView<E> v(a); return (const std::byte*)&v[i]; }
static const std::byte* view(const NdArrayRef& a, int64_t i) {
  switch (a.elsize()) {
    case 1: return vw<E1>(a, i);
    case 2: return vw<E2>(a, i);
    case 4: return vw<E4>(a, i);
    case 8: return vw<E8>(a, i);
    case 16: return vw<E16>(a, i);
    case 32: return vw<E32>(a, i);
  }
  return nullptr;
}
static bool inside(const NdArrayRef& a) {
  auto* b = (std::byte*)a.buf()->data();
  for (auto* p : addrs(a)) if (p < b || p + a.elsize() > b + a.buf()->size()) return false;
  return true;
}
// every way of indexing the array agrees with the stride equation
static void indexing(const std::string& k, NdArrayRef& a, const std::string& d) {
  auto ad = addrs(a);
  if (!inside(a)) { fail(k + "-bounds", d + " -> " + desc(a) + " addresses storage outside its buffer"); return; }
  for (size_t i = 0; i < ad.size(); i++) {
    const NdArrayRef& c = a;
    auto u = unf(i, a.shape());
    Index ix(u.begin(), u.end());
    if (&a.at((int64_t)i) != ad[i] || &c.at((int64_t)i) != ad[i]) { fail(k + "-at", d + " -> " + desc(a) + " flat index " + std::to_string(i)); return; }
    if (&a.at(ix) != ad[i] || &c.at(ix) != ad[i]) { fail(k + "-at-index", d + " -> " + desc(a) + " index " + show(u)); return; }
    if (view(a, i) != ad[i]) { fail(k + "-view", d + " -> " + desc(a) + " flat index " + std::to_string(i)); return; }
    if (i < 3) {
      NdArrayRef::Iterator it(a, (int64_t)i), e = a.end();
      for (size_t j = i; j < ad.size(); j++, ++it) if (!(it != e) || &*it != ad[j]) { fail(k + "-iterator", d + " -> " + desc(a) + " start " + std::to_string(i) + " element " + std::to_string(j)); return; }
      if (it != e) { fail(k + "-iterator-end", d + " -> " + desc(a)); return; }
    }
  }
  if (ad.size()) {
    size_t j = 0;
    auto it = a.begin();
    for (; it != a.end() && j < ad.size(); it++, j++) if (&*it != ad[j]) { fail(k + "-iterator", d); return; }
    if (j != ad.size()) fail(k + "-iterator-count", d + " -> " + desc(a));
  }
  bool compact = true;
  int64_t p = 1;
  for (int64_t x = (int64_t)a.shape().size() - 1; x >= 0; x--) { compact &= a.strides()[x] == (a.shape()[x] == 1 ? 0 : p); p *= a.shape()[x]; }
  if (a.isCompact() != (compact || ad.size() < 2)) fail("isCompact", d + " -> " + desc(a));
}
static void isview(const std::string& k, NdArrayRef& r, const Shape& sh, const Addrs& e, const NdArrayRef& src, const Type& ty, const std::string& d) {
  if (r.shape() != sh) { fail(k + "-shape", d + " gives shape " + show(r.shape()) + " expected " + show(sh)); return; }
  if (!(r.eltype() == ty)) { fail(k + "-type", d); return; }
  if (r.buf() != src.buf()) { fail(k + "-storage", d + " does not share storage"); return; }
  auto g = addrs(r);
  for (size_t i = 0; i < e.size(); i++) if (g[i] != e[i]) { fail(k, d + " -> " + desc(r) + ": element " + std::to_string(i) + " is " + std::to_string(g[i] - (std::byte*)src.buf()->data()) + " bytes into the buffer, expected " + std::to_string(e[i] - (std::byte*)src.buf()->data())); return; }
  indexing(k, r, d);
  for (size_t x = 0; x < sh.size(); x++) if (sh[x] == 1 && r.strides()[x] != 0) fail(k + "-unit-stride", d + " -> " + desc(r) + ": the stride of a dimension of size 1 is not zero, so broadcasting the result leaves the addressed elements");
}
static void iscopy(const std::string& k, NdArrayRef& r, const Shape& sh, const Content& e, const std::string& d) {
  if (r.shape() != sh) { fail(k + "-shape", d + " gives shape " + show(r.shape()) + " expected " + show(sh)); return; }
  if (!inside(r)) { fail(k + "-bounds", d + " -> " + desc(r)); return; }
  if (content(r) != e) { fail(k, d + " -> " + desc(r) + ": content differs"); return; }
  indexing(k, r, d);
}
static Type rty() {
  switch (below(9)) {
    case 0: return makePtType(PT_I8);
    case 1: return makePtType(PT_U16);
    case 2: return makePtType(PT_I32);
    case 3: return makePtType(PT_F64);
    case 4: return makePtType(PT_I128);
    case 5: return makeType<RingTy>(FM32);
    case 6: return makeType<RingTy>(FM64);
    case 7: return makePtType(PT_CF64);
    default: return makeType<RingTy>(FM128);
  }
}
static Shape rsh(bool zero = false) {
  Shape s(below(5));
  for (auto& d : s) { d = 1 + below(4); if (below(4) == 0) d = 1; if (zero && below(10) == 0) d = 0; }
  return s;
}
static void fill(NdArrayRef& a) { char* p = (char*)a.buf()->data(); for (int64_t i = 0; i < a.buf()->size(); i++) p[i] = (char)rnd(); }
static NdArrayRef derived(const Type& ty, bool zero = false, bool writable = false) {
  NdArrayRef a(ty, rsh(zero));
  fill(a);
  for (int n = below(4); n > 0; n--) {
    auto s = a.shape();
    switch (below(writable ? 4 : 5)) {
      case 0: { Index b(s.size()), e(s.size()); Strides t(s.size(), 1); for (size_t i = 0; i < s.size(); i++) { b[i] = s[i] ? below(s[i]) : 0; e[i] = s[i] ? b[i] + 1 + below(s[i] - b[i]) : 0; t[i] = 1 + below(3); } if (count_of(s)) a = a.slice(b, e, t); break; }
      case 1: { Axes p(s.size()); for (size_t i = 0; i < p.size(); i++) p[i] = i; for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[below(i)]); a = a.transpose(p); break; }
      case 2: { Axes p; for (size_t i = 0; i < s.size(); i++) if (below(2)) p.push_back(i); a = a.reverse(p); break; }
      case 3: { Shape t = s; if (s.size() < 5) t.insert(t.begin() + below(s.size() + 1), 1); a = a.reshape(t); break; }
      default: { Shape t = s; for (auto& d : t) if (d == 1) d = 1 + below(3); if (t.size() < 4) t.insert(t.begin(), 1 + below(3)); a = a.broadcast_to(t, {}); break; }
    }
  }
  return a;
}
template <typename F> static void mustthrow(const std::string& k, const std::string& d, F&& f) { if (!throws(f)) fail(k, d + ": accepted"); }
int main(int argc, char** argv) {
  init(argc, argv);
  while (time_left()) {
    auto ty = rty();
    auto a = derived(ty, below(8) == 0);
    auto sh = a.shape();
    int64_t n = count_of(sh), rk = sh.size();
    auto ad = addrs(a);
    auto ct = content(a);
    std::string d0 = desc(a);
    setcase(d0);
    count(d0 + std::to_string(rnd() % 64));
    auto before = std::string((char*)a.buf()->data(), a.buf()->size());
    indexing("indexing", a, d0);
    if (a.numel() != n || (int64_t)a.ndim() != rk) fail("numel", d0);
    {  // reverse
      Axes x;
      for (int64_t i = 0; i < rk; i++) if (below(2)) x.push_back(i);
      std::string d = d0 + " reverse" + show(x);
      if (n) nothrow("reverse", d, [&] {
        auto r = a.reverse(x);
        Addrs e(n);
        for (int64_t i = 0; i < n; i++) { auto u = unf(i, sh); for (auto k : x) u[k] = sh[k] - 1 - u[k]; e[i] = ad[fl(u, sh)]; }
        isview("reverse", r, sh, e, a, ty, d);
      });
    }
    {  // transpose
      Axes p(rk);
      for (int64_t i = 0; i < rk; i++) p[i] = i;
      for (size_t i = rk; i > 1; i--) std::swap(p[i - 1], p[below(i)]);
      bool dflt = below(3) == 0;
      if (dflt) for (int64_t i = 0; i < rk; i++) p[i] = rk - 1 - i;
      std::string d = d0 + " transpose" + show(p);
      nothrow("transpose", d, [&] {
        auto r = dflt ? a.transpose() : a.transpose(p);
        Shape s(rk);
        for (int64_t i = 0; i < rk; i++) s[i] = sh[p[i]];
        Addrs e(n);
        for (int64_t i = 0; i < n; i++) { auto u = unf(i, s); std::vector<int64_t> v(rk); for (int64_t k = 0; k < rk; k++) v[p[k]] = u[k]; e[i] = ad[fl(v, sh)]; }
        isview("transpose", r, s, e, a, ty, d);
      });
    }
    {  // slice
      Index b(rk), e(rk);
      Strides t(rk, 1);
      bool nost = below(3) == 0;
      for (int64_t i = 0; i < rk; i++) { b[i] = below(sh[i] ? sh[i] : 1); e[i] = b[i] + below(sh[i] - b[i] + 1); if (!nost) t[i] = 1 + below(4); }
      std::string d = d0 + " slice" + show(b) + show(e) + show(t);
      if (n) nothrow("slice", d, [&] {
        auto r = a.slice(b, e, nost ? Strides() : t);
        Shape s(rk);
        for (int64_t i = 0; i < rk; i++) s[i] = (e[i] - b[i] + t[i] - 1) / t[i];
        Addrs x(count_of(s));
        for (size_t i = 0; i < x.size(); i++) { auto u = unf(i, s); for (int64_t k = 0; k < rk; k++) u[k] = b[k] + u[k] * t[k]; x[i] = ad[fl(u, sh)]; }
        isview("slice", r, s, x, a, ty, d);
        auto one = a.slice_scalar_at(b);
        isview("slice_scalar_at", one, {}, {ad[fl(b, sh)]}, a, ty, d);
      });
    }
    {  // broadcast
      Shape s;
      Axes dims;
      for (int64_t i = 0; i < rk; i++) { while (below(4) == 0 && s.size() < 5) s.push_back(1 + below(3)); dims.push_back(s.size()); s.push_back(sh[i] == 1 ? 1 + below(4) : sh[i]); }
      bool implicit = true;
      for (int64_t i = 0; i < rk; i++) implicit &= dims[i] == (int64_t)s.size() - rk + i;
      bool unit_ok = true;  // a stretched unit dimension must carry stride zero (kept by every operation below)
      for (int64_t i = 0; i < rk; i++) unit_ok &= !(sh[i] == 1 && a.strides()[i] != 0);
      if (!unit_ok) fail("unit-stride", d0);
      std::string d = d0 + " broadcast_to" + show(s) + (implicit ? "" : show(dims));
      if (count_of(s) < 3000 && n) nothrow("broadcast", d, [&] {
        auto r = a.broadcast_to(s, implicit && below(2) ? Axes{} : dims);
        Addrs x(count_of(s));
        for (size_t i = 0; i < x.size(); i++) { auto u = unf(i, s); std::vector<int64_t> v(rk); for (int64_t k = 0; k < rk; k++) v[k] = sh[k] == 1 ? 0 : u[dims[k]]; x[i] = ad[fl(v, sh)]; }
        isview("broadcast", r, s, x, a, ty, d);
      });
    }
    {  // reshape
      Shape s;
      int64_t m = n;
      if (n) while (m > 1) { int64_t f = 1 + below(m); while (m % f) f--; if (f > 1 || below(3) == 0) s.push_back(f); m /= f; if (s.size() > 4) { s.push_back(m); break; } }
      if (n) while (below(3) == 0 && s.size() < 6) s.insert(s.begin() + below(s.size() + 1), 1);
      if (!n) s = {3, 0};
      std::string d = d0 + " reshape" + show(s);
      nothrow("reshape", d, [&] {
        auto r = a.reshape(s);
        if (r.buf() == a.buf()) { isview("reshape", r, s, ad, a, ty, d); } else iscopy("reshape", r, s, ct, d);
        if (a.isCompact() && n && r.buf() != a.buf()) fail("reshape-storage", d + ": a compact array was copied");
      });
      if (n) { Shape w = s; w.push_back(2); mustthrow("reshape-count", d, [&] { a.reshape(w); }); }
    }
    {  // clone
      std::string d = d0 + " clone";
      nothrow("clone", d, [&] { auto r = a.clone(); iscopy("clone", r, sh, ct, d); if (r.buf() == a.buf() && n) fail("clone-storage", d); if (!r.isCompact()) fail("clone-compact", d); });
    }
    {  // as
      auto t2 = rty();
      std::string d = d0 + " as size " + std::to_string(t2.size());
      if (t2.size() == ty.size()) nothrow("as", d, [&] { auto r = a.as(t2); isview("as", r, sh, ad, a, t2, d); });
      else mustthrow("as-size", d, [&] { a.as(t2); });
      bool div = true;
      for (auto s : a.strides()) div &= (s * (int64_t)ty.size()) % (int64_t)t2.size() == 0;
      if (div && n && t2.size() < ty.size()) nothrow("as-force", d, [&] {
        auto r = a.as(t2, true);
        auto g = addrs(r);
        if (r.shape() != sh || r.buf() != a.buf() || !(r.eltype() == t2)) fail("as-force", d);
        for (int64_t i = 0; i < n; i++) if (g[i] != ad[i]) { fail("as-force", d + " -> " + desc(r) + ": element " + std::to_string(i)); break; }
      });
    }
    if (std::string((char*)a.buf()->data(), a.buf()->size()) != before) fail("view-writes", d0 + ": a view operation wrote into its source");
    // copying operations
    if (n == 1) {
      auto s = rsh(below(3) == 0);
      std::string d = d0 + " expand" + show(s);
      setcase(d);
      if (count_of(s) == 0 && !getenv("VN_NO_EMPTY_EXPAND")) alarm(5);
      nothrow("expand", d, [&] { auto r = a.expand(s); iscopy("expand", r, s, Content(count_of(s), ct[0]), d); if (r.buf() == a.buf()) fail("expand-storage", d); });
      alarm(0);
    } else mustthrow("expand-count", d0, [&] { a.expand({2}); });
    if (rk > 0) {  // concatenate
      int64_t ax = below(rk);
      std::vector<NdArrayRef> o;
      std::string d = d0 + " concatenate axis " + std::to_string(ax);
      auto s = sh;
      std::vector<NdArrayRef> all = {a};
      for (int k = below(3); k >= 0; k--) {
        Shape os = sh;
        os[ax] = 1 + below(3);
        NdArrayRef b(ty, os);
        fill(b);
        if (below(2)) { Axes p; for (int64_t i = 0; i < rk; i++) if (below(2)) p.push_back(i); b = count_of(os) ? b.reverse(p) : b; }
        o.push_back(b);
        all.push_back(b);
        s[ax] += os[ax];
        d += show(os);
      }
      if (n) nothrow("concatenate", d, [&] {
        auto r = a.concatenate(o, ax);
        Content e(count_of(s));
        for (size_t i = 0; i < e.size(); i++) { auto u = unf(i, s); size_t k = 0; while (u[ax] >= all[k].shape()[ax]) u[ax] -= all[k++].shape()[ax]; e[i] = std::string((char*)addr(all[k], fl(u, all[k].shape())), ty.size()); }
        iscopy("concatenate", r, s, e, d);
      });
    }
    {  // pad
      Sizes lo(rk), hi(rk), in(rk);
      Shape s(rk);
      bool ok = true;
      for (int64_t i = 0; i < rk; i++) { lo[i] = (int64_t)below(5) - 2; hi[i] = (int64_t)below(5) - 2; in[i] = below(3); int64_t body = sh[i] ? sh[i] + in[i] * (sh[i] - 1) : 0; s[i] = lo[i] + hi[i] + body; ok &= s[i] >= 0; }
      NdArrayRef pv(ty, Shape{});
      fill(pv);
      std::string d = d0 + " pad" + show(lo) + show(hi) + show(in);
      setcase(d);
      if (ok) {
        nothrow("pad", d, [&] {
          auto r = a.pad(pv, lo, hi, in);
          Content e(count_of(s), content(pv)[0]);
          for (int64_t i = 0; i < n; i++) { auto u = unf(i, sh); bool v = true; for (int64_t k = 0; k < rk; k++) { u[k] = lo[k] + u[k] * (in[k] + 1); v &= u[k] >= 0 && u[k] < s[k]; } if (v) e[fl(u, s)] = ct[i]; }
          iscopy("pad", r, s, e, d);
        });
        alarm(0);
      }
    }
    if (rk == 1 && n) {  // gather / scatter
      Index ix(below(6));
      for (auto& x : ix) x = below(n);
      std::string d = d0 + " gather" + show(ix);
      nothrow("linear_gather", d, [&] {
        auto r = a.linear_gather(ix);
        Content e;
        for (auto x : ix) e.push_back(ct[x]);
        iscopy("linear_gather", r, {(int64_t)ix.size()}, e, d);
      });
    }
    if (std::string((char*)a.buf()->data(), a.buf()->size()) != before) fail("copy-writes", d0 + ": a copying operation wrote into its source");
    {  // writes
      auto w = derived(ty, false, true);
      auto ws = w.shape();
      int64_t wn = count_of(ws), wr = ws.size();
      auto wb = [&](const NdArrayRef& x) { return std::string((char*)x.buf()->data(), x.buf()->size()); };
      // the whole buffer is compared: elements not named keep their bytes
      if (wr == 1 && below(2)) {
        Index ix(below(6));
        for (auto& x : ix) x = below(wn);
        NdArrayRef v(ty, {(int64_t)ix.size()});
        fill(v);
        if (below(2) && ix.size()) v = v.reverse({0});
        auto e = wb(w);
        for (size_t i = 0; i < ix.size(); i++) memcpy(&e[addr(w, ix[i]) - (std::byte*)w.buf()->data()], addr(v, i), ty.size());
        std::string d = desc(w) + " scatter" + show(ix);
        nothrow("linear_scatter", d, [&] { w.linear_scatter(v, ix); if (wb(w) != e) fail("linear_scatter", d); });
      } else {
        bool stretched = below(4) == 0 && wr < 4;
        if (stretched) { Shape t = ws; t.insert(t.begin(), 1 + below(3)); w = w.broadcast_to(t, {}); ws = t; wr++; wn = count_of(ws); }
        Shape us(wr);
        Index st(wr);
        for (int64_t i = 0; i < wr; i++) { us[i] = below(6) ? 1 + below(ws[i]) : ws[i]; st[i] = below(ws[i] - us[i] + 1); }
        if (below(3) == 0) for (int64_t i = 0; i < wr; i++) { us[i] = 1; st[i] = below(ws[i]); }
        NdArrayRef v(ty, us);
        fill(v);
        if (below(2)) { Axes p; for (int64_t i = 0; i < wr; i++) if (below(2)) p.push_back(i); v = v.reverse(p); }
        auto wc = content(w), vc = content(v);
        for (size_t i = 0; i < vc.size(); i++) { auto u = unf(i, us); for (int64_t k = 0; k < wr; k++) u[k] += st[k]; wc[fl(u, ws)] = vc[i]; }
        std::string d = desc(w) + " update_slice of " + desc(v) + " at " + show(st);
        bool alias = false;
        for (int64_t i = 0; i < wr; i++) alias |= ws[i] != 1 && w.strides()[i] == 0;
        auto old = w.buf();
        auto whole = wb(w);
        if (!alias) for (size_t i = 0; i < vc.size(); i++) { auto u = unf(i, us); for (int64_t k = 0; k < wr; k++) u[k] += st[k]; memcpy(&whole[addr(w, fl(u, ws)) - (std::byte*)w.buf()->data()], vc[i].data(), ty.size()); }
        nothrow("update_slice", d, [&] {
          w.update_slice(v, st);
          if (content(w) != wc || w.shape() != ws) fail("update_slice", d);
          if (std::string((char*)old->data(), old->size()) != whole) fail("update_slice-frame", d);
        });
      }
    }
    if (below(3) == 0) {  // pack / unpack
      std::vector<NdArrayRef> v;
      std::string d = "pack";
      for (int k = below(4); k >= 0; k--) { v.push_back(derived(ty)); d += " [" + desc(v.back()) + "]"; }
      nothrow("pack", d, [&] {
        SimdTrait<NdArrayRef>::PackInfo pi;
        auto p = SimdTrait<NdArrayRef>::pack(v.begin(), v.end(), pi);
        Content e;
        for (auto& x : v) { auto c = content(x); e.insert(e.end(), c.begin(), c.end()); }
        iscopy("pack", p, {(int64_t)e.size()}, e, d);
        std::vector<NdArrayRef> o;
        SimdTrait<NdArrayRef>::unpack(p, std::back_inserter(o), pi);
        {  // unpacking a view (offset, reversed, stride) of some array
          auto q = p.reverse({0}).slice({0}, {p.numel()}, {});
          std::vector<NdArrayRef> o2;
          SimdTrait<NdArrayRef>::unpack(q, std::back_inserter(o2), pi);
          auto c = content(q);
          size_t at = 0;
          for (auto& y : o2) { size_t m = count_of(y.shape()); iscopy("unpack-view", y, y.shape(), Content(c.begin() + at, c.begin() + at + m), d); at += m; }
        }
        if (o.size() != v.size()) fail("unpack-count", d);
        for (size_t i = 0; i < o.size() && i < v.size(); i++) iscopy("unpack", o[i], v[i].shape(), content(v[i]), d);
      });
    }
    {
      auto z = makeConstantArrayRef(ty, sh);
      iscopy("makeConstantArrayRef", z, sh, Content(n, std::string(ty.size(), '\0')), d0);
    }
    if (ty.size() == 8 && n) {
      size_t m = 0;
      for (int64_t i = 0; i < n; i++) { uint64_t x; memcpy(&x, addr(a, i), 8); size_t b = 0; while (b < 64 && x >> b) b++; m = std::max(m, b); }
      if (maxBitWidth<uint64_t>(a) != m) fail("maxBitWidth", d0);
    }
  }
  return finish();
}
