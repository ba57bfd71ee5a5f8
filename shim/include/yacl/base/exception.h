#pragma once
// Minimal stand-in for yacl/base/exception.h (interface only as used by libspu).
#include <exception>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <array>
#include <functional>
#include <memory>
#include <cstring>
#include <iostream>
#include <mutex>
#include <algorithm>
#include <optional>
#include "fmt/format.h"
#include "spdlog/spdlog.h"



namespace yacl {
class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(std::string msg) : msg_(std::move(msg)) {}
  explicit Exception(const char* msg) : msg_(msg) {}
  Exception(const std::string& msg, void**, int) : msg_(msg) {}
  const char* what() const noexcept override { return msg_.c_str(); }
  const std::string& stack_trace() const noexcept { return stack_; }
 private:
  std::string msg_;
  std::string stack_;
};
class RuntimeError : public Exception { using Exception::Exception; };
class LogicError : public Exception { using Exception::Exception; };
class InvalidArgumentError : public Exception { using Exception::Exception; };
class IoError : public Exception { using Exception::Exception; };
class NetworkError : public Exception { using Exception::Exception; };
class EnforceNotMet : public Exception {
 public:
  EnforceNotMet(const char*, int, const char* expr, const std::string& msg)
      : Exception(std::string("Enforce fail: ") + expr + " " + msg) {}
};
namespace internal {
inline std::string Format() { return ""; }
// formatting is not modelled: the message is the format string itself
template <typename... Args>
inline std::string Format(const char* f, Args&&...) { return f; }
template <typename... Args>
inline std::string Format(const std::string& f, Args&&...) { return f; }
}  // namespace internal
[[noreturn]] inline void verif_throw(const std::string& m) { throw RuntimeError(m); }
[[noreturn]] inline void verif_enforce_fail(const char* expr, const std::string& m) {
  throw EnforceNotMet("", 0, expr, m);
}
template <typename T>
T& CheckNotNull(T&& x, const char* = "") { if (x == nullptr) verif_enforce_fail("CheckNotNull", ""); return x; }
template <typename T>
T* CheckNotNull(T* x) { if (x == nullptr) verif_enforce_fail("CheckNotNull", ""); return x; }
}  // namespace yacl
#define YACL_THROW(...) ::yacl::verif_throw(::yacl::internal::Format(__VA_ARGS__))
#define YACL_THROW_IO_ERROR(...) throw ::yacl::IoError(::yacl::internal::Format(__VA_ARGS__))
#define YACL_THROW_LOGIC_ERROR(...) throw ::yacl::LogicError(::yacl::internal::Format(__VA_ARGS__))
#define YACL_THROW_INVALID_ARGUMENT(...) throw ::yacl::InvalidArgumentError(::yacl::internal::Format(__VA_ARGS__))
#define YACL_ENFORCE(COND, ...)                                             \
  do {                                                                      \
    if (!(COND)) {                                                          \
      ::yacl::verif_enforce_fail(#COND, ::yacl::internal::Format(__VA_ARGS__)); \
    }                                                                       \
  } while (false)
#define VERIF_CMP_(A, OP, B, ...)                                           \
  do {                                                                      \
    if (!((A)OP(B))) {                                                      \
      ::yacl::verif_enforce_fail(#A #OP #B, ::yacl::internal::Format(__VA_ARGS__)); \
    }                                                                       \
  } while (false)
#define YACL_ENFORCE_EQ(A, B, ...) VERIF_CMP_(A, ==, B, __VA_ARGS__)
#define YACL_ENFORCE_NE(A, B, ...) VERIF_CMP_(A, !=, B, __VA_ARGS__)
#define YACL_ENFORCE_GT(A, B, ...) VERIF_CMP_(A, >, B, __VA_ARGS__)
#define YACL_ENFORCE_GE(A, B, ...) VERIF_CMP_(A, >=, B, __VA_ARGS__)
#define YACL_ENFORCE_LT(A, B, ...) VERIF_CMP_(A, <, B, __VA_ARGS__)
#define YACL_ENFORCE_LE(A, B, ...) VERIF_CMP_(A, <=, B, __VA_ARGS__)
