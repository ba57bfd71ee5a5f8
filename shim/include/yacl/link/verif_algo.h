#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
inline std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, ByteContainerView in, std::string_view tag) {
  for (size_t i = 0; i < c->WorldSize(); ++i) if (i != c->Rank()) c->SendAsync(i, in, tag);
  std::vector<Buffer> r(c->WorldSize());
  for (size_t i = 0; i < c->WorldSize(); ++i) r[i] = i == c->Rank() ? Buffer(in) : c->Recv(i, tag);
  return r;
}
inline std::vector<Buffer> Gather(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag) {
  if (c->Rank() != root) { c->SendAsync(root, in, tag); return {}; }
  std::vector<Buffer> r(c->WorldSize());
  for (size_t i = 0; i < c->WorldSize(); ++i) r[i] = i == root ? Buffer(in) : c->Recv(i, tag);
  return r;
}
inline Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag) {
  if (c->Rank() == root) { for (size_t i = 0; i < c->WorldSize(); ++i) if (i != root) c->SendAsync(i, in, tag); return Buffer(in); }
  return c->Recv(root, tag);
}
inline void Barrier(const std::shared_ptr<Context>& c, std::string_view tag) { uint8_t z = 0; AllGather(c, ByteContainerView(&z, 1), tag); }
}
