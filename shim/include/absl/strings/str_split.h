#pragma once
#include <string>
#include <vector>
#include "absl/strings/string_view.h"
namespace absl {
struct ByChar { char c; explicit ByChar(char x) : c(x) {} };
inline std::vector<string_view> StrSplit(string_view s, ByChar d) { std::vector<string_view> r; size_t b = 0; while (true) { auto e = s.find(d.c, b); if (e == string_view::npos) { r.push_back(s.substr(b)); return r; } r.push_back(s.substr(b, e - b)); b = e + 1; } }
inline std::vector<string_view> StrSplit(string_view s, char c) { return StrSplit(s, ByChar(c)); }
}
