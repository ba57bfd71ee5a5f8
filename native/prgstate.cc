#include <mutex>
#include <thread>
#include "common.h"
#include "libspu/mpc/common/prg_state.h"
#include "yacl/link/test_util.h"
using namespace vn;
using namespace spu;
using spu::mpc::PrgState;
typedef std::vector<uint8_t> Bytes;
static std::vector<std::unique_ptr<PrgState>> setup(size_t n, int k) {
  auto l = yacl::link::test::SetupWorld("prg" + std::to_string(k), n);
  std::vector<std::unique_ptr<PrgState>> s(n);
  std::vector<std::thread> t;
  for (size_t r = 0; r < n; r++) t.emplace_back([&, r] { verif::entropy() = 77 + k * 16 + r; s[r] = std::make_unique<PrgState>(l[r]); });
  for (auto& x : t) x.join();
  return s;
}
static Bytes bytes(const NdArrayRef& a) { Bytes b; for (int64_t i = 0; i < a.numel(); i++) { auto* p = (const uint8_t*)&a.at(i); b.insert(b.end(), p, p + a.elsize()); } return b; }
template <class T> static Bytes bv(const std::vector<T>& v) { Bytes b(v.size() * sizeof(T)); if (!b.empty()) memcpy(b.data(), v.data(), b.size()); return b; }
// a random history of calls; every party makes the same calls
struct Hist {
  std::vector<std::unique_ptr<PrgState>> s; size_t n; std::string h;
  std::vector<std::set<Bytes>> seen;      // 16-byte blocks each party has drawn from its own, public and private streams
  void fresh_(size_t p, const Bytes& b, const char* what) {
    for (size_t o = 0; o + 16 <= b.size(); o += 16) {
      Bytes x(b.begin() + o, b.begin() + o + 16);
      if (!seen[p].insert(x).second) { fail(std::string("reuse-") + what, h + ": party " + std::to_string(p) + " drew the same block twice"); return; }
    }
  }
  void ring(const std::vector<Bytes>& a, const std::vector<Bytes>& b, const char* what) {
    for (size_t p = 0; p < n; p++) {
      if (b[p] != a[(p + 1) % n]) fail(std::string("pair-") + what, h + ": the second word of party " + std::to_string(p) + " differs from the first of its neighbour");
      fresh_(p, a[p], what);
    }
  }
  template <class T> void prss() {
    size_t m = below(40); int first = below(3);
    std::vector<Bytes> A, B;
    for (size_t p = 0; p < n; p++) {
      std::vector<T> a(m), b(m);
      if (first == 0) s[p]->fillPrssPair<T>(a.data(), b.data(), m, PrgState::GenPrssCtrl::Both);
      else if (first == 1) { s[p]->fillPrssPair<T>(a.data(), nullptr, m, PrgState::GenPrssCtrl::First); s[p]->fillPrssPair<T>(nullptr, b.data(), m, PrgState::GenPrssCtrl::Second); }
      else { s[p]->fillPrssPair<T>(nullptr, b.data(), m, PrgState::GenPrssCtrl::Second); s[p]->fillPrssPair<T>(a.data(), nullptr, m, PrgState::GenPrssCtrl::First); }
      A.push_back(bv(a)); B.push_back(bv(b));
    }
    ring(A, B, "fillPrssPair");
  }
  template <class T> void publ() {
    size_t m = below(40); Bytes f;
    for (size_t p = 0; p < n; p++) {
      std::vector<T> a(m), q(m);
      s[p]->fillPubl(absl::MakeSpan(a)); s[p]->fillPriv(absl::MakeSpan(q));
      if (p == 0) f = bv(a); else if (f != bv(a)) fail("public", h + ": public random words differ");
      fresh_(p, bv(a), "fillPubl"); fresh_(p, bv(q), "fillPriv");
    }
  }
  void step() {
    auto fm = (FieldType)(1 + below(3));
    Shape sh; for (int d = below(3); d-- > 0;) sh.push_back(below(6));
    int k = below(16);
    h += std::to_string(k) + " ";
    setcase(h);
    switch (k) {
      case 0: prss<uint8_t>(); break; case 1: prss<uint16_t>(); break; case 2: prss<uint32_t>(); break; case 3: prss<uint64_t>(); break; case 4: prss<unsigned __int128>(); break;
      case 5: publ<uint8_t>(); break; case 6: publ<uint32_t>(); break; case 7: publ<uint64_t>(); break; case 8: publ<unsigned __int128>(); break;
      case 9: case 10: {
        std::vector<Bytes> A, B; int c = below(2);
        for (size_t p = 0; p < n; p++) {
          if (c) { auto r = s[p]->genPrssPair(fm, sh, PrgState::GenPrssCtrl::Both); A.push_back(bytes(r.first)); B.push_back(bytes(r.second)); }
          else { auto r = s[p]->genPrssPair(fm, sh, PrgState::GenPrssCtrl::First), q = s[p]->genPrssPair(fm, sh, PrgState::GenPrssCtrl::Second); A.push_back(bytes(r.first)); B.push_back(bytes(q.second)); }
        }
        ring(A, B, "genPrssPair");
        break;
      }
      case 11: { Bytes f; for (size_t p = 0; p < n; p++) { auto a = bytes(s[p]->genPubl(fm, sh)); if (p == 0) f = a; else if (a != f) fail("public-array", h); fresh_(p, a, "genPubl"); } break; }
      case 12: { for (size_t p = 0; p < n; p++) fresh_(p, bytes(s[p]->genPriv(fm, sh)), "genPriv"); break; }
      case 13: {
        size_t m = below(20); std::vector<std::pair<Index, Index>> r;
        for (size_t p = 0; p < n; p++) r.push_back(s[p]->genPrssPermPair(m));
        for (size_t p = 0; p < n; p++) {
          if (r[p].second != r[(p + 1) % n].first) fail("perm-pair", h);
          std::vector<int> c(m); if (r[p].first.size() != m) { fail("perm-size", h); continue; }
          for (auto x : r[p].first) if (x < 0 || x >= (int64_t)m || c[x]++) fail("perm-bijection", h);
        }
        if (m >= 12) { auto q = s[0]->genPrssPermPair(m); for (size_t p = 1; p < n; p++) s[p]->genPrssPermPair(m); if (q.first == r[0].first) fail("perm-reuse", h); }
        break;
      }
      case 14: {
        size_t m = below(20);
        for (size_t p = 0; p < n; p++) { auto r = s[p]->genPrivPerm(m); std::vector<int> c(m); for (auto x : r) if (x < 0 || x >= (int64_t)m || c[x]++) fail("perm-bijection", h); if (m >= 12 && r == s[p]->genPrivPerm(m)) fail("privperm-reuse", h); }
        break;
      }
      default: if (below(2)) {
        for (size_t p = 0; p < n; p++) { std::unique_ptr<State> c = s[p]->fork(); if (auto* q = dynamic_cast<PrgState*>(c.get())) { c.release(); s[p].reset(q); } else fail("fork", h); }
      } else for (size_t p = 0; p < n; p++) { auto c = s[p]->fork(); (void)c; }
    }
  }
};
int main(int argc, char** argv) {
  init(argc, argv);
  int k = 0;
  while (time_left()) {
    Hist H; H.n = 2 + below(4); H.h = std::to_string(H.n) + " parties, calls ";
    H.s = setup(H.n, k++ + 1000 * (int)below(1000)); H.seen.resize(H.n);
    int len = 1 + below(14);
    for (int i = 0; i < len; i++) H.step();
    count(H.h);
  }
  return finish();
}
