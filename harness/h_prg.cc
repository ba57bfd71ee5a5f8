#include "libspu/mpc/common/prg_state.h"
#include "libspu/mpc/utils/permute.h"
namespace vh {
using spu::mpc::PrgState;
std::unique_ptr<PrgState> prg_make(const std::shared_ptr<yacl::link::Context>& l) { return std::make_unique<PrgState>(l); }
std::unique_ptr<PrgState> prg_default() { return std::make_unique<PrgState>(); }
template <typename T> void prss_t(PrgState& s, T* a, T* b, size_t n, PrgState::GenPrssCtrl c) { s.fillPrssPair<T>(a, b, n, c); }
template <typename T> void publ_t(PrgState& s, absl::Span<T> r) { s.fillPubl<T>(r); }
template <typename T> void priv_t(PrgState& s, absl::Span<T> r) { s.fillPriv<T>(r); }
#define INST(N, T) \
  void prss_##N(PrgState& s, T* a, T* b, size_t n, PrgState::GenPrssCtrl c) { prss_t<T>(s, a, b, n, c); } \
  void publ_##N(PrgState& s, absl::Span<T> r) { publ_t<T>(s, r); } \
  void priv_##N(PrgState& s, absl::Span<T> r) { priv_t<T>(s, r); }
INST(u8, uint8_t)
INST(u16, uint16_t)
INST(u32, uint32_t)
INST(u64, uint64_t)
INST(u128, uint128_t)
}
