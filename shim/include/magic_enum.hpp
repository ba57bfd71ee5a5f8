#pragma once
// Minimal magic_enum stand-in: names recovered from __PRETTY_FUNCTION__ for values in [-1, 256).
#include <array>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
namespace magic_enum {
namespace detail {
template <typename E, E V>
constexpr std::string_view n() {
  std::string_view s = __PRETTY_FUNCTION__;
  auto p = s.rfind("V = ");
  s = s.substr(p + 4);
  auto e = s.find_first_of(";]");
  s = s.substr(0, e);
  if (s.empty() || s[0] == '(' || (s[0] >= '0' && s[0] <= '9') || s[0] == '-') return {};
  auto c = s.rfind("::");
  return c == std::string_view::npos ? s : s.substr(c + 2);
}
template <typename E, size_t... I>
constexpr auto tab(std::index_sequence<I...>) { return std::array<std::string_view, sizeof...(I)>{n<E, static_cast<E>(I)>()...}; }
template <typename E> inline constexpr auto names = tab<E>(std::make_index_sequence<128>{});
}
template <typename E>
constexpr std::string_view enum_name(E v) {
  auto i = static_cast<long long>(v);
  if (i < 0 || i >= 128) return {};
  return detail::names<std::decay_t<E>>[i];
}
template <typename E>
constexpr std::optional<E> enum_cast(std::string_view s) {
  for (size_t i = 0; i < 128; ++i) if (!detail::names<E>[i].empty() && detail::names<E>[i] == s) return static_cast<E>(i);
  return std::nullopt;
}
}
