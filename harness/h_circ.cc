#include "libspu/mpc/utils/circuits.h"
namespace vh {
// an opaque word; the gates are given by contract
struct Gv {
  uint64_t h;
};
Gv gxor(const Gv& a, const Gv& b);
Gv gand(const Gv& a, const Gv& b);
Gv gshl(const Gv& a, int64_t k);
Gv gshr(const Gv& a, int64_t k);
Gv gconst(const Gv& like, uint128_t v);
Gv gnbits(const Gv& a, size_t n);
inline spu::mpc::CircuitBasicBlock<Gv> gates() {
  spu::mpc::CircuitBasicBlock<Gv> b;
  b._xor = [](const Gv& x, const Gv& y) { return gxor(x, y); };
  b._and = [](const Gv& x, const Gv& y) { return gand(x, y); };
  b.lshift = [](const Gv& x, const spu::Sizes& k) { return gshl(x, k[0]); };
  b.rshift = [](const Gv& x, const spu::Sizes& k) { return gshr(x, k[0]); };
  b.init_like = [](const Gv& x, uint128_t v) { return gconst(x, v); };
  b.set_nbits = [](Gv& x, size_t n) { x = gnbits(x, n); };
  return b;
}
Gv c_kogge(Gv x, Gv y, size_t n) { return spu::mpc::kogge_stone<Gv>(gates(), x, y, n); }
Gv c_sklansky(Gv x, Gv y, size_t n) { return spu::mpc::sklansky<Gv>(gates(), x, y, n); }
Gv c_split(Gv x, size_t n) { return spu::mpc::odd_even_split<Gv>(gates(), x, n); }
Gv c_carry(Gv x, Gv y, size_t n) { return spu::mpc::carry_out<Gv>(gates(), x, y, n); }
}  // namespace vh
