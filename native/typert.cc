// Every type with every parameter value: textual form and back, equality, size.
#include "common.h"
#include <map>
#include <limits>
#include "../harness/h_typert.cc"
using namespace vn;
using namespace spu;
struct E { std::string id; Type t; size_t size; };
int main(int argc, char** argv) {
  init(argc, argv);
  vt::reg();
  std::vector<E> all;
  auto put = [&](std::string id, Type t, size_t sz) { all.push_back({id, std::move(t), sz}); };
  PtType pts[] = {PT_I8, PT_U8, PT_I16, PT_U16, PT_I32, PT_U32, PT_I64, PT_U64, PT_I128, PT_U128, PT_I1, PT_F16, PT_F32, PT_F64, PT_CF32, PT_CF64};
  size_t psz[] = {1, 1, 2, 2, 4, 4, 8, 8, 16, 16, 1, 2, 4, 8, 8, 16};
  put("Void", Type(), 0);
  for (int i = 0; i < 16; i++) put("Pt " + std::to_string(i), makePtType(pts[i]), psz[i]);
  for (int k = 1; k <= 3; k++) {
    auto f = (FieldType)k;
    size_t w = 2u << k;
    auto id = [&](const char* c) { return std::string(c) + " ring " + std::to_string(8 * w); };
    put(id("Ring"), vt::mk_Ring(f), w);
    put(id("Gfmp"), vt::mk_Gfmp(f), w);
    put(id("Pub"), vt::mk_Pub(f), w);
    for (int64_t o : {(int64_t)-1, (int64_t)0, (int64_t)1, (int64_t)2, (int64_t)12, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min(), (int64_t)(rnd() >> 8)})
      put(id("Priv") + " owner " + std::to_string(o), vt::mk_Priv(f, o), w);
    put(id("aby3 A"), vt::mk_aby3_A(f), 2 * w);
    put(id("aby3 O"), vt::mk_aby3_O(f), 2 * w);
    put(id("aby3 OP"), vt::mk_aby3_OP(f), w);
    put(id("semi2k A"), vt::mk_semi2k_A(f), w);
    put(id("securenn A"), vt::mk_securenn_A(f), w);
    put(id("spdz2k A"), vt::mk_spdz2k_A(f), 2 * w);
    put(id("cheetah A"), vt::mk_cheetah_A(f), w);
    put(id("swift A"), vt::mk_swift_A(f), 3 * w);
    for (size_t n = 0; n <= 8 * w; n++) {
      auto nb = " bits " + std::to_string(n);
      put(id("semi2k B") + nb, vt::mk_semi2k_B(f, n), w);
      put(id("securenn B") + nb, vt::mk_securenn_B(f, n), w);
      put(id("cheetah B") + nb, vt::mk_cheetah_B(f, n), w);
      put(id("swift B") + nb, vt::mk_swift_B(f, n), 3 * w);
    }
    for (int b : {1, 3, 5, 7, 9})
      for (size_t n = 0; n <= 8 * psz[b]; n++) put(id("spdz2k B") + " back " + std::to_string(b) + " bits " + std::to_string(n), vt::mk_spdz2k_B(pts[b], n, f), w * 2 * w * 4);
  }
  for (int b : {1, 3, 5, 7, 9})
    for (size_t n = 0; n <= 8 * psz[b]; n++) put("aby3 B back " + std::to_string(b) + " bits " + std::to_string(n), vt::mk_aby3_B(pts[b], n), 2 * psz[b]);
  put("aby3 P", vt::mk_aby3_P(), 16);
  put("semi2k P", vt::mk_semi2k_P(), 8);
  put("cheetah P", vt::mk_cheetah_P(), 8);
  put("swift P", vt::mk_swift_P(), 8);
  std::map<std::string, size_t> text;
  for (size_t i = 0; i < all.size(); i++) {
    auto& e = all[i];
    setcase("type " + e.id);
    try {
      auto s = e.t.toString();
      auto u = Type::fromString(s);
      if (!(u == e.t) || u != e.t) fail("roundtrip", e.id + ": parsing " + s + " gives a different type");
      if (u.toString() != s) fail("text", e.id + ": text changes from " + s + " to " + u.toString());
      if (u.size() != e.size || e.t.size() != e.size) fail("size", e.id + ": sizes " + std::to_string(e.t.size()) + " and after parsing " + std::to_string(u.size()) + ", expected " + std::to_string(e.size));
      if (auto* g = dynamic_cast<GfmpTy const*>(e.t.isa<GfmpTy>() ? e.t.as<GfmpTy>() : nullptr)) {
        if (u.as<GfmpTy>()->p() != g->p() || g->p() != (((uint128_t)1 << g->mp_exp()) - 1)) fail("prime", e.id + ": prime differs");
      }
      if (!text.emplace(s, i).second) fail("clash", e.id + ": same text " + s + " as " + all[text[s]].id);
    } catch (const std::exception& x) {
      fail("raise", e.id + ": " + x.what());
    }
    count(e.id);
  }
  for (const char* bad : {"Nothing<>", "Ring<>", "Ring<PT_U8>", "Ring<nonsense>", "Plaintext<FM64>", "Ring<FM64", "Ring", "", "<FM64>", "Void<x>", "ring<FM64>", "semi2k.BShr<FM64>", "Priv2k<FM64,>"}) {
    setcase(std::string("parse ") + bad);
    bool threw = false;
    try { Type::fromString(bad); } catch (const std::exception&) { threw = true; }
    if (!threw) fail("accept", std::string(bad) + " is accepted");
    count(bad);
  }
  while (time_left()) {
    size_t a = below(all.size()), b = below(4) ? below(all.size()) : std::min(all.size() - 1, a + below(8));
    setcase("compare " + all[a].id + " | " + all[b].id);
    try {
      if ((all[a].t == all[b].t) != (a == b) || (all[a].t != all[b].t) == (a == b)) fail("equality", all[a].id + " and " + all[b].id + " compare wrongly");
      Type c(all[a].t), d;
      d = all[b].t;
      if (!(c == all[a].t) || !(d == all[b].t) || c.size() != all[a].size || d.size() != all[b].size) fail("copy", all[a].id + " or " + all[b].id + ": copy differs");
      if (c.isa<BShare>()) {
        auto n = all[a].t.as<BShare>()->nbits();
        c.as<BShare>()->setNbits(n + 1);
        if (all[a].t.as<BShare>()->nbits() != n || c.as<BShare>()->nbits() != n + 1) fail("alias", all[a].id + ": changing a copy changes the original");
      }
    } catch (const std::exception& x) {
      fail("raise", all[a].id + " | " + all[b].id + ": " + x.what());
    }
    count(std::to_string(a) + "," + std::to_string(b));
  }
  return finish();
}
