#pragma once
#include <utility>
namespace yacl {
template <class F> class ScopeGuard {
  F f_; bool on_{true};
 public:
  explicit ScopeGuard(F f) : f_(std::move(f)) {}
  ScopeGuard(ScopeGuard&& o) : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; }
  ~ScopeGuard() { if (on_) f_(); }
};
template <class F> ScopeGuard<F> MakeScopeGuard(F f) { return ScopeGuard<F>(std::move(f)); }
}
#define VERIF_CAT2_(a, b) a##b
#define VERIF_CAT_(a, b) VERIF_CAT2_(a, b)
#define ON_SCOPE_EXIT(F) auto VERIF_CAT_(scope_guard_, __LINE__) = ::yacl::MakeScopeGuard(F)
