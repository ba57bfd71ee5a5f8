#pragma once
#include <cstdlib>
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
template <class I> inline bool SimpleAtoi(string_view s, I* o) { std::string t(s); char* e = nullptr; long long v = std::strtoll(t.c_str(), &e, 10); if (t.empty() || *e != 0) return false; *o = static_cast<I>(v); return true; }
}
