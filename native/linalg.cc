#include "common.h"
#include "libspu/mpc/utils/linalg.h"
using namespace vn;
template <typename T> static std::string show(T v) { return hex((u128)(__int128)v); }

template <typename T>
static void one(const char* tn, int64_t M, int64_t N, int64_t K) {
  // strides: permuted / padded row-major layouts, sometimes reversed, broadcast rows or columns of the inputs
  auto lay = [](int64_t r, int64_t c, int64_t& so, int64_t& si, int64_t& len, int64_t& off, bool out) {
    int64_t pi = 1 + (int64_t)below(3), pr = (int64_t)below(3);
    if (below(2)) { pi = 1; pr = 0; }
    if (below(4) != 0) { si = pi; so = std::max<int64_t>(1, c) * pi + pr; } else { so = pi; si = std::max<int64_t>(1, r) * pi + pr; }
    if (!out && below(8) == 0) (below(2) ? so : si) = 0;
    int64_t lo = 0, hi = 0;
    (void)lo;
    hi = (r > 0 ? (r - 1) * so : 0) + (c > 0 ? (c - 1) * si : 0);
    int64_t pad = below(4);
    off = pad;
    len = pad + hi + 1 + (int64_t)below(4);
  };
  int64_t LDA, IDA, LDB, IDB, LDC, IDC, la, lb, lc, oa, ob, oc;
  lay(M, K, LDA, IDA, la, oa, false);
  lay(K, N, LDB, IDB, lb, ob, false);
  lay(M, N, LDC, IDC, lc, oc, true);
  std::vector<T> A(la), B(lb), C(lc);
  // signed types: values small enough that no product or sum overflows
  auto val = [] { return std::is_signed<T>::value || sizeof(T) < 4 ? (T)((int64_t)below(41) - (std::is_signed<T>::value ? 20 : 0)) : (T)edgy(); };
  for (auto& v : A) v = val();
  for (auto& v : B) v = val();
  for (auto& v : C) v = (T)rnd();
  auto A0 = A, B0 = B, C0 = C;
  std::ostringstream d;
  d << "matmul<" << tn << "> M=" << M << " N=" << N << " K=" << K << " LDA=" << LDA << " IDA=" << IDA << " LDB=" << LDB << " IDB=" << IDB << " LDC=" << LDC << " IDC=" << IDC;
  setcase(d.str());
  spu::mpc::linalg::matmul<T>(M, N, K, A.data() + oa, LDA, IDA, B.data() + ob, LDB, IDB, C.data() + oc, LDC, IDC);
  std::vector<char> own(lc, 0);
  for (int64_t i = 0; i < M; i++)
    for (int64_t j = 0; j < N; j++) {
      u128 e = 0;
      for (int64_t k = 0; k < K; k++) e += (u128)(__int128)A0[oa + i * LDA + k * IDA] * (u128)(__int128)B0[ob + k * LDB + j * IDB];
      own[oc + i * LDC + j * IDC] = 1;
      T got = C[oc + i * LDC + j * IDC];
      if (got != (T)e) { fail("value", d.str() + " element (" + std::to_string(i) + "," + std::to_string(j) + "): got " + show(got) + " expected " + show((T)e)); return; }
    }
  for (int64_t p = 0; p < lc; p++) if (!own[p] && C[p] != C0[p]) { fail("frame", d.str() + " wrote position " + std::to_string(p) + " outside the output"); return; }
  if (A != A0 || B != B0) fail("inputs", d.str() + " modified an input");
  count(d.str());
}
template <typename T> static void run(const char* tn) {
  int64_t M, N, K;
  if (below(40) == 0) { M = below(70); N = below(70); K = below(70); }
  else if (below(12) == 0) { int64_t* q[3] = {&M, &N, &K}; for (auto p : q) *p = 1 + below(3); *q[below(3)] = 50 + below(300); }
  else { M = below(9); N = below(9); K = below(9); }
  one<T>(tn, M, N, K);
}
int main(int argc, char** argv) {
  init(argc, argv);
  bool first = true;
  while (time_left()) {
    if (first) { one<uint64_t>("uint64", 150, 170, 160); one<u128>("uint128", 70, 65, 90); one<uint32_t>("uint32", 200, 130, 140); first = false; }
    switch (below(8)) {
      case 0: run<uint8_t>("uint8"); break;
      case 1: run<uint16_t>("uint16"); break;
      case 2: run<uint32_t>("uint32"); break;
      case 3: run<uint64_t>("uint64"); break;
      case 4: run<u128>("uint128"); break;
      case 5: run<int32_t>("int32"); break;
      case 6: run<int64_t>("int64"); break;
      default: run<__int128>("int128"); break;
    }
  }
  return finish();
}
