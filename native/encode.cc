// Encoding of plaintext buffers into the ring and back, against integer arithmetic on the bit patterns.
#include <cmath>
#include "arrays.h"
#include "libspu/core/encoding.h"
#include "libspu/core/pt_buffer_view.h"
using namespace vn;
typedef half_float::half half;
static u128 exactfx(double v, int f, int w) {   // trunc(v * 2^f), saturated
  if (std::isnan(v)) return 0;
  u128 top = (u128)1 << (w - 2); bool neg = std::signbit(v); double a = std::fabs(v);
  u128 m; bool over = std::isinf(a);
  if (!over) {
    int e; double fr = std::frexp(a, &e); u128 s = (u128)std::ldexp(fr, 53); int sh = e - 53 + f;
    if (a == 0) m = 0; else if (sh <= 0) m = -sh >= 64 ? 0 : s >> -sh; else if (sh + 53 >= 130) over = true, m = 0;
    else { over = sh > 74 || (s << sh) >> sh != s; m = s << sh; }
    if (!over && m >= top) over = true;
  }
  u128 r = over ? (neg ? top : top - 1) : m;
  return (neg ? (u128)0 - r : r) & mask(w);
}
template <class T> static T rval() {
  T v{}; u128 b = below(3) ? rnd128() : edgy(); memcpy(&v, &b, sizeof(T) < 16 ? sizeof(T) : 16); return v;
}
template <> bool rval<bool>() { return below(2); }
template <class T> static double asd(T v) { return (double)v; }
template <> double asd<half>(half v) { return (double)(float)v; }
template <class T, bool FP> static void one(PtType pt, DataType dt) {
  FieldType f = rfield(); int w = width(f), by = w / 8;
  Shape sh = rshape(); int64_t m = count_of(sh), nd = sh.size();
  int fx = FP ? (below(2) ? (w == 32 ? 8 : w == 64 ? 18 : 26) : below(w - 2)) : 18;
  // a strided plain buffer
  Strides st(nd, 0); int64_t cur = 1 + (below(2) ? below(3) : 0), c2 = cur;
  bool flip = below(2);
  for (int64_t k = 0; k < nd; k++) { int64_t d = flip ? k : nd - 1 - k; st[d] = c2; c2 *= sh[d]; if (below(4) == 0) c2 += 2; }
  std::vector<unsigned char> raw((c2 + 8) * sizeof(T) + 16, 0), raw2(raw.size(), 0);
  T* buf = (T*)raw.data(); T* b2 = (T*)raw2.data();
  std::vector<int64_t> pos(m);
  for (int64_t i = 0; i < m; i++) { int64_t q = i, o = 0; for (int64_t d = nd - 1; d >= 0; d--) { o += (q % sh[d]) * st[d]; q /= sh[d]; } pos[i] = o; }
  for (auto o : pos) {
    T v = rval<T>();
    if constexpr (FP && !std::is_same_v<T, half>) { switch (below(6)) { case 0: v = std::ldexp((T)(int64_t)(rnd() >> below(64)), -(int)below(70)); break; case 1: v = -std::ldexp((T)(1 + below(1u << 20)), (int)below(w) - fx - 10); break; case 2: v = std::nextafter(std::ldexp((T)1, w - 2 - fx), (T)(below(2) ? 0 : 1e30)) * (below(2) ? 1 : -1); break; default:; } }
    buf[o] = v;
  }
  std::string id = "type " + std::to_string((int)pt) + ", width " + std::to_string(w) + ", fraction bits " + std::to_string(fx) + ", shape " + shows(sh) + ", strides " + shows(Shape(st.begin(), st.end()));
  setcase(id);
  bool toobig = !FP && sizeof(T) * 8 > (size_t)w;
  DataType od = DT_INVALID; NdArrayRef e;
  try { e = encodeToRing(PtBufferView((const T*)buf, pt, sh, st), f, fx, &od); }
  catch (const std::exception& x) { if (!toobig) fail("raise", id + ": " + x.what()); return; }
  if (toobig) { fail("reject", id + ": a type wider than the ring is accepted"); return; }
  if (od != dt) fail("dtype", id);
  if (e.eltype() != makeType<RingTy>(f) || e.shape() != sh) { fail("result type", id); return; }
  for (int64_t i = 0; i < m; i++) {
    u128 want; T v = buf[pos[i]];
    if constexpr (FP) want = exactfx(asd(v), fx, w); else want = (u128)(i128)v & mask(w);
    if (get(e, i, by) != want) { std::string s = hex(get(e, i, by)) + " instead of " + hex(want); if constexpr (FP) { char t[64]; snprintf(t, 64, "%a", asd(v)); s = std::string(t) + " -> " + s; } fail("encode", id + ": index " + std::to_string(i) + ": " + s); break; }
  }
  PtType op = PT_INVALID; PtBufferView o(b2, pt, sh, st);
  try { decodeFromRing(e, od, fx, &o, &op); } catch (const std::exception& x) { fail("raise", id + ": decode: " + x.what()); return; }
  if (op != pt) fail("pttype", id);
  for (int64_t i = 0; i < m; i++) {
    if constexpr (FP) {
      if (std::is_same_v<T, half>) continue;
      double want = (double)(i128)sx(get(e, i, by), w) / std::ldexp(1.0, fx);
      if ((double)asd(b2[pos[i]]) != (double)(T)want) { fail("decode", id + ": index " + std::to_string(i)); break; }
    } else if (b2[pos[i]] != buf[pos[i]]) { fail("decode", id + ": index " + std::to_string(i)); break; }
  }
  // back into the ring: the same words where the value's significand is wide enough
  if constexpr (FP && !std::is_same_v<T, half>) {
    auto e2 = encodeToRing(o, f, fx, &od);
    for (int64_t i = 0; i < m; i++) {
      i128 x = sx(get(e, i, by), w); u128 a = x < 0 ? (u128)0 - (u128)x : (u128)x;
      if (a >> (sizeof(T) == 4 ? 24 : 53)) continue;
      if (get(e2, i, by) != get(e, i, by)) { fail("idempotent", id + ": index " + std::to_string(i)); break; }
    }
  }
  count(id);
}
int main(int argc, char** argv) {
  init(argc, argv);
  // every half-precision pattern
  for (auto f : {FM32, FM64, FM128}) for (int fx : {0, 8, 10, 14, 15, 18, 26}) {
    int w = width(f); if (fx > w - 3) continue;
    std::vector<uint16_t> all(65536); for (int i = 0; i < 65536; i++) all[i] = i;
    std::string id = "all half patterns, width " + std::to_string(w) + ", fraction bits " + std::to_string(fx); setcase(id);
    auto e = encodeToRing(PtBufferView((const half*)all.data(), PT_F16, {65536}, {1}), f, fx);
    std::vector<half> back(65536); PtBufferView o(back.data(), PT_F16, {65536}, {1}); decodeFromRing(e, DT_F16, fx, &o);
    for (int i = 0; i < 65536; i++) {
      half h; memcpy(&h, &all[i], 2); double v = (double)(float)h;
      u128 want = exactfx(v, fx, w);
      if (get(e, i, w / 8) != want) { fail("encode half", id + ": pattern " + hex(i) + " -> " + hex(get(e, i, w / 8)) + " instead of " + hex(want)); break; }
      double d = (double)(i128)sx(want, w) / std::ldexp(1.0, fx);
      uint16_t got; memcpy(&got, &back[i], 2); half x((float)d); uint16_t ex; memcpy(&ex, &x, 2);
      if (got != ex) { fail("decode half", id + ": pattern " + hex(i)); break; }
    }
    count(id);
  }
  while (time_left()) switch (below(11)) {
    case 0: one<bool, false>(PT_I1, DT_I1); break;
    case 1: one<int8_t, false>(PT_I8, DT_I8); break;
    case 2: one<uint8_t, false>(PT_U8, DT_U8); break;
    case 3: one<int16_t, false>(PT_I16, DT_I16); break;
    case 4: one<uint16_t, false>(PT_U16, DT_U16); break;
    case 5: one<int32_t, false>(PT_I32, DT_I32); break;
    case 6: one<uint32_t, false>(PT_U32, DT_U32); break;
    case 7: one<int64_t, false>(PT_I64, DT_I64); break;
    case 8: one<uint64_t, false>(PT_U64, DT_U64); break;
    case 9: one<float, true>(PT_F32, DT_F32); break;
    default: one<double, true>(PT_F64, DT_F64);
  }
  return finish();
}
