#include "proto.h"
#include "libspu/mpc/ref2k/ref2k.h"
using namespace vp;
int main(int argc, char** argv) {
  init(argc, argv);
  std::vector<Fuzz*> fs;
  for (size_t n : {2, 3, 4})
    for (auto f : {spu::FM32, spu::FM64, spu::FM128}) {
      Prot p;
      p.name = "ref2k"; p.n = n; p.f = f;
      p.priv = false;
      p.conf.protocol = spu::ProtocolKind::REF2K; p.conf.field = f;
      p.make = [](const spu::RuntimeConfig& c, const std::shared_ptr<yacl::link::Context>& l) { return makeRef2kProtocol(c, l); };
      p.io = [=] { return spu::mpc::makeRef2kIo(f, n); };
      p.recon = [=](char, const std::vector<NdArrayRef>& s, std::string* bad) {
        V r = words(s[0], W(f));
        for (auto& x : s) if (words(x, W(f)) != r) *bad = "parties hold different reference values";
        return r;
      };
      fs.push_back(new Fuzz(p));
    }
  drive(fs, GROUPS);
  return finish();
}
