#include "proto.h"
#include "libspu/mpc/securenn/io.h"
#include "libspu/mpc/securenn/protocol.h"
using namespace vp;
int main(int argc, char** argv) {
  init(argc, argv);
  std::vector<Fuzz*> fs;
  for (auto f : {spu::FM32, spu::FM64, spu::FM128}) {
    Prot p;
    p.name = "securenn"; p.n = 3; p.f = f;
    p.msb_mag = W(f) - 2;                    // the documented domain of its comparison
    p.conf.protocol = spu::ProtocolKind::SECURENN; p.conf.field = f;
    p.make = [](const spu::RuntimeConfig& c, const std::shared_ptr<yacl::link::Context>& l) { return makeSecurennProtocol(c, l); };
    p.io = [=] { return spu::mpc::securenn::makeSecurennIo(f, 3); };
    p.recon = [=](char k, const std::vector<NdArrayRef>& s, std::string*) { return additive(s, W(f), k); };
    fs.push_back(new Fuzz(p));
  }
  drive(fs, GROUPS);
  return finish();
}
