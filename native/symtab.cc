#include <map>
#include "common.h"
#include "libspu/device/symbol_table.h"
#include "libspu/core/ndarray_ref.h"
#include "libspu/core/type.h"
using namespace vn;
using namespace spu;
// a random history of operations against a reference map from names to value contents
int main(int argc, char** argv) {
  init(argc, argv);
  auto value = [](uint64_t x) { NdArrayRef a(makeType<RingTy>(FM64), Shape{1 + (int64_t)(x % 3)}); for (int64_t i = 0; i < a.numel(); i++) a.at<uint64_t>(i) = x + i; return Value(a, x & 1 ? DT_I64 : DT_F64); };
  auto same = [](const Value& v, uint64_t x) { bool r = v.dtype() == (x & 1 ? DT_I64 : DT_F64) && v.data().numel() == 1 + (int64_t)(x % 3); for (int64_t i = 0; r && i < v.data().numel(); i++) r = v.data().at<uint64_t>(i) == x + i; return r; };
  while (time_left()) {
    device::SymbolTable t;
    std::map<std::string, uint64_t> ref;
    std::string hist;
    int len = 1 + below(24);
    for (int k = 0; k < len; k++) {
      static const char* names[] = {"", "a", "b", "ab", "x0", "x00"};
      std::string n = below(8) ? names[below(6)] : std::string(below(3), 'z') + (char)('a' + below(3));
      switch (below(9)) {
        case 0: case 1: case 2: { uint64_t x = rnd(); hist += "set(" + n + "," + std::to_string(x) + ") "; t.setVar(n, value(x)); ref[n] = x; break; }
        case 3: hist += "del(" + n + ") "; t.delVar(n); ref.erase(n); break;
        case 4: if (below(5) == 0) { hist += "clear "; t.clear(); ref.clear(); } break;
        case 5: { device::SymbolTable u = t; u.setVar(n, value(1)); hist += "copy "; break; }
        case 6: { hist += "has(" + n + ") "; if (t.hasVar(n) != (ref.count(n) > 0)) fail("hasVar", hist); break; }
        default: {
          hist += "get(" + n + ") ";
          setcase(hist);
          bool thrown = false;
          try { Value v = t.getVar(n); if (!ref.count(n)) fail("getVar-absent", hist); else if (!same(v, ref[n])) fail("getVar", hist); } catch (...) { thrown = true; }
          if (thrown && ref.count(n)) fail("getVar-raised", hist);
        }
      }
    }
    for (auto& [n, x] : ref) if (!t.hasVar(n) || !same(t.getVar(n), x)) fail("history", hist + "-> " + n);
    size_t cnt = 0;
    for (auto it = t.begin(); it != t.end(); ++it) { cnt++; if (!ref.count(it->first)) fail("iteration", hist); }
    if (cnt != ref.size()) fail("size", hist);
    count(hist);
  }
  return finish();
}
