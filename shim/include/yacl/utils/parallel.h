#pragma once
#include <algorithm>
#include <cstdint>
#include <future>
#include <vector>
namespace yacl {
inline int get_num_threads() { return 1; }
inline void set_num_threads(int) {}
inline void init_num_threads() {}
inline bool in_parallel_region() { return false; }
template <class F>
inline void parallel_for(int64_t begin, int64_t end, int64_t grain, const F& f) {
  // split into several chunks so that code depending on one-chunk execution shows up
  (void)grain;
  if (begin >= end) return;
  int64_t mid = begin + (end - begin + 1) / 2;
  f(begin, mid);
  if (mid < end) f(mid, end);
}
template <class F>
inline void parallel_for(int64_t begin, int64_t end, const F& f) { parallel_for(begin, end, 1, f); }
template <class S, class F, class R>
inline S parallel_reduce(int64_t begin, int64_t end, int64_t grain, const F& f, const R& r) {
  (void)grain;
  int64_t mid = begin + (end - begin + 1) / 2;
  S a = f(begin, mid);
  if (mid < end) return r(a, f(mid, end));
  return a;
}
}
