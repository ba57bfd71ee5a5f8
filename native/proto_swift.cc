#include "proto.h"
#include "libspu/mpc/experimental/swift/io.h"
#include "libspu/mpc/experimental/swift/protocol.h"
using namespace vp;
// the masked value and the two mask shares: x = third - first - second at party 1 (xor for boolean shares)
template <class T>
static V rep(char k, const std::vector<NdArrayRef>& s, int w, std::string* bad) {
  V r;
  typedef std::array<T, 3> P;
  for (int64_t i = 0; i < s[0].numel(); i++) {
    const P &a = s[0].at<P>(i), &b = s[1].at<P>(i), &d = s[2].at<P>(i);
    u128 v = k == 'b' ? (u128)(b[1] ^ a[0] ^ a[1]) : (u128)(T)(b[1] - a[0] - a[1]);
    (void)d; (void)bad;
    r.push_back(v & M(w));
  }
  return r;
}
int main(int argc, char** argv) {
  init(argc, argv);
  std::vector<Fuzz*> fs;
  for (auto f : {spu::FM32, spu::FM64}) {
    Prot p;
    p.name = "swift"; p.n = 3; p.f = f; 
    p.conf.protocol = spu::ProtocolKind::SWIFT; p.conf.field = f;
    p.make = [](const spu::RuntimeConfig& c, const std::shared_ptr<yacl::link::Context>& l) { return makeSwiftProtocol(c, l); };
    p.io = [=] { return spu::mpc::swift::makeSwiftIo(f, 3); };
    p.recon = [=](char k, const std::vector<NdArrayRef>& s, std::string* bad) { return f == spu::FM32 ? rep<uint32_t>(k, s, 32, bad) : rep<uint64_t>(k, s, 64, bad); };
    fs.push_back(new Fuzz(p));
  }
  drive(fs, GROUPS);
  return finish();
}
