#pragma once
#include "yacl/link/link.h"
namespace yacl::link::test {
inline std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id, size_t n) {
  auto mesh = std::make_shared<VerifMesh>();
  std::vector<std::shared_ptr<Context>> r;
  ContextDesc d; d.id = id;
  for (size_t i = 0; i < n; ++i) r.push_back(std::make_shared<Context>(d, i, n, mesh, id));
  return r;
}
inline std::vector<std::shared_ptr<Context>> SetupWorld(size_t n) { return SetupWorld("w", n); }
inline std::vector<std::shared_ptr<Context>> SetupBrpcWorld(size_t n) { return SetupWorld("w", n); }
}
