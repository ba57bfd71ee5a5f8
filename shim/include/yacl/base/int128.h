#pragma once
#include <cstdint>
#include <ostream>
#include <string>
#include <utility>
#include <algorithm>
#include <type_traits>
#include "fmt/format.h"
#include "fmt/ostream.h"
using int128_t = __int128;
using uint128_t = unsigned __int128;
namespace yacl {
constexpr int128_t MakeInt128(int64_t hi, uint64_t lo) {
  return static_cast<int128_t>((static_cast<uint128_t>(static_cast<uint64_t>(hi)) << 64) | lo);
}
constexpr uint128_t MakeUint128(uint64_t hi, uint64_t lo) {
  return (static_cast<uint128_t>(hi) << 64) | lo;
}
constexpr inline std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) {
  return {static_cast<int64_t>(v >> 64), static_cast<uint64_t>(v)};
}
constexpr inline std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) {
  return {static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)};
}
}  // namespace yacl
namespace verif {
inline std::string u128str(unsigned __int128 v) {
  if (v == 0) return "0";
  std::string s;
  while (v != 0) { s.push_back(static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; }
  std::reverse(s.begin(), s.end());
  return s;
}
}  // namespace verif
namespace std {
inline std::ostream& operator<<(std::ostream& os, unsigned __int128 v) { return os << ::verif::u128str(v); }
inline std::ostream& operator<<(std::ostream& os, __int128 v) {
  if (v < 0) return os << '-' << ::verif::u128str(-static_cast<unsigned __int128>(v));
  return os << ::verif::u128str(static_cast<unsigned __int128>(v));
}
}  // namespace std
