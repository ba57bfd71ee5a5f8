// instantiates the strided matrix product for the element types under proof
#include <cstdint>
#include "libspu/mpc/utils/linalg.h"
namespace vh {
#define INST(T) \
  void mm(int64_t M, int64_t N, int64_t K, const T* A, int64_t LDA, int64_t IDA, const T* B, int64_t LDB, int64_t IDB, T* C, int64_t LDC, int64_t IDC) { \
    spu::mpc::linalg::matmul<T>(M, N, K, A, LDA, IDA, B, LDB, IDB, C, LDC, IDC); }
INST(uint8_t) INST(uint16_t) INST(uint32_t) INST(uint64_t) INST(unsigned __int128)
INST(int32_t) INST(int64_t) INST(__int128)
}
