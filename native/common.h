// Shared by the run-time contract checks: seeded inputs, failure lines, time budget.
#pragma once
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vn {
typedef unsigned __int128 u128;
typedef __int128 i128;

inline uint64_t g_state[2] = {1, 2};
inline uint64_t rnd() {
  uint64_t s1 = g_state[0], s0 = g_state[1];
  g_state[0] = s0;
  s1 ^= s1 << 23;
  g_state[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return g_state[1] + s0;
}
inline uint64_t below(uint64_t n) { return n == 0 ? 0 : rnd() % n; }
inline u128 rnd128() { return ((u128)rnd() << 64) | rnd(); }
// values that sit on the edges of machine integers, mixed with uniform ones
inline u128 edgy() {
  switch (below(10)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return ~(u128)0;
    case 3: return (u128)1 << below(128);
    case 4: return ((u128)1 << below(128)) - 1;
    case 5: return ~((u128)1 << below(128));
    case 6: return below(16);
    case 7: return (u128)0 - below(16);
    default: return rnd128();
  }
}
inline std::string hex(u128 v) {
  if (v == 0) return "0x0";
  char b[40];
  if (v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  else snprintf(b, sizeof b, "0x%llx", (unsigned long long)v);
  return b;
}

inline std::string g_case = "start";
inline uint64_t g_cases = 0, g_fails = 0;
inline std::unordered_set<uint64_t> g_seen;
inline std::set<std::string> g_failkeys;
inline std::chrono::steady_clock::time_point g_end;
inline int g_samples = 0;

inline void setcase(const std::string& s) { g_case = s; }
inline void fail(const std::string& key, const std::string& d) {
  g_fails++;
  if (g_failkeys.size() > 40 || !g_failkeys.insert(key).second) return;
  std::string x = d;
  for (auto& c : x) if (c == '\n' || c == '\t') c = ' ';
  printf("FAIL\t%s\t%s\n", key.c_str(), x.substr(0, 1500).c_str());
  fflush(stdout);
}
inline uint64_t hashs(const std::string& s) { return std::hash<std::string>()(s); }
// one evaluated case; what identifies it
inline void count(const std::string& id) {
  g_cases++;
  if (g_seen.size() < 4000000) g_seen.insert(hashs(id));
  if (g_samples < 6 && (g_cases & (g_cases - 1)) == 0 && g_cases > 8) {
    g_samples++;
    std::string x = id.substr(0, 300);
    for (auto& c : x) if (c == '\n' || c == '\t') c = ' ';
    printf("SAMPLE\t%s\n", x.c_str());
  }
}
inline bool time_left() { return std::chrono::steady_clock::now() < g_end; }
inline void on_sig(int s) {
  char b[700];
  int n = snprintf(b, sizeof b, "\nCASE\t%.600s (signal %d)\n", g_case.c_str(), s);
  if (write(1, b, n) < 0) {}
  _exit(100 + s);
}
inline void on_term() {
  std::string w = "unknown";
  try { auto e = std::current_exception(); if (e) std::rethrow_exception(e); } catch (const std::exception& e) { w = e.what(); } catch (...) {}
  for (auto& c : w) if (c == '\n' || c == '\t') c = ' ';
  printf("\nCASE\t%.600s (uncaught: %.300s)\n", g_case.c_str(), w.c_str());
  fflush(stdout);
  _exit(99);
}
inline void init(int argc, char** argv) {
  uint64_t seed = 1, ms = 10000;
  for (int i = 1; i + 1 < argc; i++) {
    if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], nullptr, 10);
    if (!strcmp(argv[i], "--ms")) ms = strtoull(argv[i + 1], nullptr, 10);
  }
  g_state[0] = seed * 0x9E3779B97F4A7C15ull + 1;
  g_state[1] = seed ^ 0xD1B54A32D192ED03ull;
  for (int i = 0; i < 16; i++) rnd();
  g_end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS}) signal(s, on_sig);
  std::set_terminate(on_term);
}
inline int finish() {
  printf("DONE\tcases=%llu\tdistinct=%llu\n", (unsigned long long)g_cases, (unsigned long long)g_seen.size());
  fflush(stdout);
  _exit(0);
}
// runs f; a thrown exception is a failure of the contract "does not raise"
template <class F>
bool nothrow(const std::string& key, const std::string& what, F&& f) {
  setcase(key + " " + what);
  try {
    f();
    return true;
  } catch (const std::exception& e) {
    fail(key, what + " raised: " + std::string(e.what()).substr(0, 200));
  } catch (...) {
    fail(key, what + " raised");
  }
  return false;
}
template <class F>
bool throws(F&& f) {
  try { f(); } catch (...) { return true; }
  return false;
}
}  // namespace vn
