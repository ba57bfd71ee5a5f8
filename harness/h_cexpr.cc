#include "libspu/core/cexpr.h"
namespace vh {
spu::ce::CExpr ce_k() { return spu::ce::K(); }
spu::ce::CExpr ce_n() { return spu::ce::N(); }
}
