#pragma once
#include <chrono>
namespace yacl {
class ElapsedTimer {
  std::chrono::steady_clock::time_point t_{std::chrono::steady_clock::now()};
 public:
  explicit ElapsedTimer(bool = true) {}
  void Restart() { t_ = std::chrono::steady_clock::now(); }
  double CountMs() const { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t_).count(); }
  double CountSec() const { return CountMs() / 1e3; }
};
}
