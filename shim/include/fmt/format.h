#pragma once
// Tiny stand-in for {fmt}: "{}" (format specs ignored) over streamable values, enums and ranges.
#include <iostream>
#include <iterator>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include <chrono>
namespace fmt {
using string_view = std::string_view;
struct ostream_formatter {};
template <typename T, typename C = char, typename E = void> struct formatter {};
template <typename T, typename C> struct is_range : std::true_type {};
template <typename S> inline S runtime(S s) { return s; }
template <typename It> struct join_view { It b, e; std::string sep; };
namespace detail {
template <typename T, typename = void> struct streamable : std::false_type {};
template <typename T> struct streamable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>> : std::true_type {};
template <typename T, typename = void> struct rangelike : std::false_type {};
template <typename T> struct rangelike<T, std::void_t<decltype(std::begin(std::declval<const T&>()), std::end(std::declval<const T&>()))>> : std::true_type {};
template <typename T> void put(std::ostream& os, const T& v);
template <typename It> void put_join(std::ostream& os, It b, It e, const std::string& sep) {
  bool first = true;
  for (; b != e; ++b) { if (!first) os << sep; first = false; put(os, *b); }
}
template <typename T> struct isjoin : std::false_type {};
template <typename It> struct isjoin<join_view<It>> : std::true_type {};
template <typename T> void put(std::ostream& os, const T& v) {
  using U = std::decay_t<T>;
  if constexpr (isjoin<U>::value) put_join(os, v.b, v.e, v.sep);
  else if constexpr (std::is_same_v<U, bool>) os << (v ? "true" : "false");
  else if constexpr (std::is_same_v<U, char>) os << v;
  else if constexpr (std::is_integral_v<U> && sizeof(U) == 1) os << static_cast<int>(v);
  else if constexpr (streamable<T>::value) os << v;
  else if constexpr (std::is_enum_v<U>) os << static_cast<long long>(v);
  else if constexpr (rangelike<T>::value) { os << '['; put_join(os, std::begin(v), std::end(v), ", "); os << ']'; }
  else os << "?";
}
inline void vf(std::ostream& os, std::string_view f) { os << f; }
template <typename A, typename... R> void vf(std::ostream& os, std::string_view f, const A& a, const R&... r) {
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '{') {
      if (i + 1 < f.size() && f[i + 1] == '{') { os << '{'; ++i; continue; }
      auto e = f.find('}', i);
      put(os, a);
      vf(os, e == std::string_view::npos ? std::string_view() : f.substr(e + 1), r...);
      return;
    }
    if (f[i] == '}' && i + 1 < f.size() && f[i + 1] == '}') ++i;
    os << f[i];
  }
}
}
template <typename... A> inline std::string format(std::string_view f, const A&... a) { std::ostringstream os; detail::vf(os, f, a...); return os.str(); }
template <typename... A> inline void print(std::string_view f, const A&... a) { std::cout << format(f, a...); }
template <typename It> inline join_view<It> join(It b, It e, std::string_view s) { return {b, e, std::string(s)}; }
template <typename R> inline auto join(const R& r, std::string_view s) -> join_view<decltype(std::begin(r))> { return {std::begin(r), std::end(r), std::string(s)}; }
template <typename T> inline std::string streamed(const T& v) { std::ostringstream os; os << v; return os.str(); }
template <typename T> inline const void* ptr(const T& p) { return static_cast<const void*>(&*p); }
template <typename T> inline std::string to_string(const T& v) { return format("{}", v); }
}
