#pragma once
#include <memory>
#include <string>
#include <vector>
#include "fmt/format.h"
#define SPDLOG_TRACE(...) (void)0
#define SPDLOG_DEBUG(...) (void)0
#define SPDLOG_INFO(...) (void)0
#define SPDLOG_WARN(...) (void)0
#define SPDLOG_ERROR(...) (void)0
#define SPDLOG_CRITICAL(...) (void)0
#define SPDLOG_LOGGER_INFO(...) (void)0
namespace spdlog {
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
namespace sinks { class ansicolor_stdout_sink_mt {}; }
class logger { public: template <typename... A> logger(A&&...) {} template <typename... A> void info(A&&...) {} void set_pattern(const std::string&) {} };
template <typename... A> void error(A&&...) {}
template <typename... A> void info(A&&...) {}
template <typename... A> void warn(A&&...) {}
inline void set_level(level::level_enum) {}
}
