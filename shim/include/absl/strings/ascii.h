#pragma once
#include <cctype>
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
inline string_view StripAsciiWhitespace(string_view s) { while (!s.empty() && std::isspace(static_cast<unsigned char>(s.front()))) s.remove_prefix(1); while (!s.empty() && std::isspace(static_cast<unsigned char>(s.back()))) s.remove_suffix(1); return s; }
inline std::string AsciiStrToLower(string_view s) { std::string r(s); for (auto& c : r) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c))); return r; }
inline std::string AsciiStrToUpper(string_view s) { std::string r(s); for (auto& c : r) c = static_cast<char>(std::toupper(static_cast<unsigned char>(c))); return r; }
}
