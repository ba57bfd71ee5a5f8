#include "common.h"
#include "../harness/h_bits.cc"
using namespace vn;
static int l2c(u128 n) { int k = 0; while (((u128)1 << k) < n) k++; return k; }
static u128 perm(u128 v, int w, int stride, int nbits, bool intl) {
  int L = l2c(nbits), B = 1 << L;
  if (stride >= L - 1 || B > w) return v;
  u128 r = 0;
  for (int i = 0; i < w; i++) {
    int blk = i / B * B, p = i % B, lo = p & ((1 << stride) - 1), j = p >> stride, half = 1 << (L - stride - 1);
    int q = ((j & 1) * half + (j >> 1)) << stride | lo;   // even groups first, odd groups after
    int from = i, to = blk + q;
    if (intl) std::swap(from, to);
    if ((v >> from) & 1) r |= (u128)1 << to;
  }
  return r;
}
template <class T, class F1, class F2, class F3, class F4, class F5>
static void run(const char* nm, F1 width, F2 de, F3 in, F4 de0, F5 in0) {
  T v = (T)edgy();
  int w = sizeof(T) * 8, bw = 0;
  while (bw < 128 && ((u128)v >> bw)) bw++;
  setcase(std::string("bits ") + nm + " " + hex(v));
  if ((int)width(v) != bw) fail("BitWidth", std::string("BitWidth<") + nm + ">(" + hex(v) + ") = " + std::to_string(width(v)));
  int st = below(7), nb = below(3) ? 1 << below(l2c(w) + 1) : 1 + below(w);
  setcase(std::string("bits ") + nm + " " + hex(v) + " stride " + std::to_string(st) + " nbits " + std::to_string(nb));
  auto ck = [&](const char* op, T got, T want) { if (got != want) fail(op, std::string(op) + "<" + nm + ">(" + hex(v) + ", stride " + std::to_string(st) + ", nbits " + std::to_string(nb) + ") = " + hex(got) + ", expected " + hex(want)); };
  ck("BitDeintl", de(v, st, nb), (T)perm(v, w, st, nb, false));
  ck("BitIntl", in(v, st, nb), (T)perm(v, w, st, nb, true));
  nb = w;
  ck("BitDeintl", de0(v, st), (T)perm(v, w, st, w, false));
  ck("BitIntl", in0(v, st), (T)perm(v, w, st, w, true));
  ck("BitDeintl", de(v, st, -1), (T)perm(v, w, st, w, false));
  ck("BitIntl", in(v, st, -1), (T)perm(v, w, st, w, true));
  count(std::string(nm) + hex(v) + "/" + std::to_string(st));
}
int main(int argc, char** argv) {
  init(argc, argv);
  auto logs = [](uint64_t n) {
    setcase("log2 " + hex(n));
    int f = 0, c = 0;
    while (f < 63 && (n >> (f + 1))) f++;
    while (c < 64 && (((u128)1 << c) < n)) c++;
    if (vh::log2floor(n) != f) fail("Log2Floor", "Log2Floor(" + hex(n) + ") = " + std::to_string(vh::log2floor(n)));
    if (vh::log2ceil(n) != c) fail("Log2Ceil", "Log2Ceil(" + hex(n) + ") = " + std::to_string(vh::log2ceil(n)));
    count("log " + hex(n));
  };
  for (uint64_t n = 0; n < 70000; n++) logs(n);
  while (time_left())
    for (int i = 0; i < 200; i++) {
      logs((uint64_t)edgy());
#define R(T) run<vh::T>(#T, vh::width_##T, vh::deintl_##T, vh::intl_##T, vh::deintl0_##T, vh::intl0_##T);
      R(u8) R(u16) R(u32) R(u64) R(u128)
      uint64_t v = (uint64_t)edgy();
      int st = below(7);
      setcase("pdep " + hex(v) + " " + std::to_string(st));
      uint64_t m[6] = {0x5555555555555555, 0x3333333333333333, 0x0F0F0F0F0F0F0F0F, 0x00FF00FF00FF00FF, 0x0000FFFF0000FFFF, 0x00000000FFFFFFFF};
      (void)m;
      uint64_t a = vh::deintl_pdep(v, st), b = vh::intl_pdep(v, st);
      if (a != (uint64_t)perm(v, 64, st, 64, false)) fail("BitDeintlWithPdepext", "BitDeintlWithPdepext(" + hex(v) + ", " + std::to_string(st) + ") = " + hex(a));
      if (b != (uint64_t)perm(v, 64, st, 64, true)) fail("BitIntlWithPdepext", "BitIntlWithPdepext(" + hex(v) + ", " + std::to_string(st) + ") = " + hex(b));
    }
  return finish();
}
