#include "proto.h"
#include "libspu/mpc/aby3/arithmetic.h"
#include "libspu/mpc/aby3/io.h"
#include "libspu/mpc/aby3/protocol.h"
#include "libspu/mpc/aby3/type.h"
using namespace vp;
// party i holds (x_i, x_{i+1}); the secret is the sum (or xor) of the three first components
template <class T>
static V rep(char k, const std::vector<NdArrayRef>& s, int w, std::string* bad) {
  V r;
  typedef std::array<T, 2> P;
  for (int64_t i = 0; i < s[0].numel(); i++) {
    u128 v = 0;
    for (int p = 0; p < 3; p++) {
      const P& a = s[p].at<P>(i);
      const P& b = s[(p + 1) % 3].at<P>(i);
      if (a[1] != b[0]) *bad = "replicated words differ at element " + std::to_string(i);
      v = k == 'b' ? v ^ a[0] : v + a[0];
    }
    r.push_back(v & M(w));
  }
  return r;
}
int main(int argc, char** argv) {
  init(argc, argv);
  std::vector<Fuzz*> fs;
  for (auto f : {spu::FM32, spu::FM64, spu::FM128}) {
    Prot p;
    p.name = "aby3"; p.n = 3; p.f = f;
    p.full_ars = true;
    p.conf.protocol = spu::ProtocolKind::ABY3; p.conf.field = f;
    p.make = [](const spu::RuntimeConfig& c, const std::shared_ptr<yacl::link::Context>& l) {
      auto r = makeAby3Protocol(c, l);
      r->prot()->regKernel<spu::mpc::aby3::TruncA>("trunc_a local");
      r->prot()->regKernel<spu::mpc::aby3::TruncAPr>("trunc_a pr");
      r->prot()->regKernel<spu::mpc::aby3::TruncAPr2>("trunc_a pr2");
      return r;
    };
    p.truncs = {"trunc_a", "trunc_a local", "trunc_a pr", "trunc_a pr2"};
    p.io = [=] { return spu::mpc::aby3::makeAby3Io(f, 3); };
    p.recon = [=](char k, const std::vector<NdArrayRef>& s, std::string* bad) -> V {
      size_t z = s[0].elsize() / 2;
      for (auto& x : s) if (x.elsize() != 2 * z) { *bad = "element sizes differ"; return {}; }
      return z == 1 ? rep<uint8_t>(k, s, W(f), bad) : z == 2 ? rep<uint16_t>(k, s, W(f), bad) : z == 4 ? rep<uint32_t>(k, s, W(f), bad) : z == 8 ? rep<uint64_t>(k, s, W(f), bad) : rep<u128>(k, s, W(f), bad);
    };
    fs.push_back(new Fuzz(p));
  }
  drive(fs, GROUPS);
  return finish();
}
