// Instantiates the typed collectives.
#include <functional>
#include "libspu/mpc/common/communicator.h"
namespace vc {
using spu::mpc::Communicator;
#define INST(N, T) \
  std::vector<T> rotate_##N(Communicator* c, absl::Span<T const> x, std::string_view t) { return c->rotate<T>(x, t); } \
  void send_##N(Communicator* c, size_t d, absl::Span<T const> x, std::string_view t) { c->sendAsync<T>(d, x, t); } \
  std::vector<T> recv_##N(Communicator* c, size_t s, std::string_view t) { return c->recv<T>(s, t); } \
  std::vector<T> allreduce_add_##N(Communicator* c, absl::Span<T const> x, std::string_view t) { return c->allReduce<T, std::plus>(x, t); } \
  std::vector<T> allreduce_xor_##N(Communicator* c, absl::Span<T const> x, std::string_view t) { return c->allReduce<T, std::bit_xor>(x, t); } \
  std::vector<T> bcast_##N(Communicator* c, absl::Span<T const> x, size_t r, std::string_view t) { return c->bcast<T>(x, r, t); } \
  std::vector<std::vector<T>> gather_##N(Communicator* c, absl::Span<T const> x, size_t r, std::string_view t) { return c->gather<T>(x, r, t); }
INST(8, uint8_t)
INST(32, uint32_t)
INST(64, uint64_t)
INST(128, uint128_t)
spu::NdArrayRef nd_allreduce(Communicator* c, spu::mpc::ReduceOp op, const spu::NdArrayRef& x, std::string_view t) { return c->allReduce(op, x, t); }
spu::NdArrayRef nd_reduce(Communicator* c, spu::mpc::ReduceOp op, const spu::NdArrayRef& x, size_t root, std::string_view t) { return c->reduce(op, x, root, t); }
spu::NdArrayRef nd_rotate(Communicator* c, const spu::NdArrayRef& x, std::string_view t) { return c->rotate(x, t); }
std::vector<spu::NdArrayRef> nd_gather(Communicator* c, const spu::NdArrayRef& x, size_t root, std::string_view t) { return c->gather(x, root, t); }
spu::NdArrayRef nd_broadcast(Communicator* c, const spu::NdArrayRef& x, size_t root, const spu::Type& ty, const spu::Shape& sh, std::string_view t) { return c->broadcast(x, root, ty, sh, t); }
void nd_send(Communicator* c, size_t dst, const spu::NdArrayRef& x, std::string_view t) { c->sendAsync(dst, x, t); }
spu::NdArrayRef nd_recv(Communicator* c, size_t src, const spu::Type& ty, std::string_view t) { return c->recv(src, ty, t); }
size_t worldsize(const Communicator& c) { return c.getWorldSize(); }
size_t rank(const Communicator& c) { return c.getRank(); }
size_t prev(const Communicator& c) { return c.prevRank(); }
size_t next(const Communicator& c) { return c.nextRank(); }
}
