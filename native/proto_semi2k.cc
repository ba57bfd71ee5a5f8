#include "proto.h"
#include "libspu/mpc/semi2k/arithmetic.h"
#include "libspu/mpc/semi2k/io.h"
#include "libspu/mpc/semi2k/protocol.h"
using namespace vp;
#ifndef GROUPS
#define GROUPS 31
#endif
int main(int argc, char** argv) {
  init(argc, argv);
  std::vector<Fuzz*> fs;
  for (size_t n : {2, 3, 4})
    for (auto f : {spu::FM32, spu::FM64, spu::FM128})
      for (int msb : {0, 1}) {
        if (msb && !(GROUPS & TRUNC)) continue;
        Prot p;
        p.name = "semi2k"; p.n = n; p.f = f;
        p.conf.protocol = spu::ProtocolKind::SEMI2K; p.conf.field = f;
        p.conf.trunc_allow_msb_error = msb;
        p.conf.beaver_type = spu::RuntimeConfig::BeaverType::TrustedFirstParty;
        p.conf.experimental_disable_vectorization = below(2);
        p.make = [](const spu::RuntimeConfig& c, const std::shared_ptr<yacl::link::Context>& l) {
          auto r = makeSemi2kProtocol(c, l);
          r->prot()->regKernel<spu::mpc::semi2k::TruncA>("trunc_a local");
          r->prot()->regKernel<spu::mpc::semi2k::TruncAPr>("trunc_a pr");
          if (l->WorldSize() == 2) r->prot()->regKernel<spu::mpc::semi2k::TruncAPr2>("trunc_a pr2");
          return r;
        };
        p.truncs = {"trunc_a", "trunc_a local", "trunc_a pr", "trunc_a pr2"};
        p.io = [=] { return spu::mpc::semi2k::makeSemi2kIo(f, n); };
        p.recon = [=](char k, const std::vector<NdArrayRef>& s, std::string*) { return additive(s, W(f), k); };
        fs.push_back(new Fuzz(p));
      }
  drive(fs, GROUPS);
  return finish();
}
