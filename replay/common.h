// Shared by the replay harnesses: they run the real code of /repo against an independent oracle (concrete inputs only).
#pragma once
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <functional>
#include <string>
#include <vector>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace vp {
inline std::function<std::string()> describe;  // the case being run
inline uint64_t count = 0, interesting = 0;
inline uint64_t rng_state = 0x9E3779B97F4A7C15ull;
inline double budget = 5.0;
inline bool dead = false;
inline uint64_t rnd() {
  uint64_t z = (rng_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline int pick(int n) { return n <= 0 ? 0 : int(rnd() % uint64_t(n)); }
inline bool chance(int pct) { return pick(100) < pct; }
inline std::string quote(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}
inline std::string list(const std::vector<std::string>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); i++) o += (i ? ", " : "") + quote(v[i]);
  return o + "]";
}
inline void crash_report(const char* what) {
  if (dead) return;
  dead = true;
  std::string d = describe ? describe() : "";
  printf("FAIL crash (%s) on the input\n%s\n", what, d.c_str());
  fflush(stdout);
}
inline void on_death() { crash_report("memory or undefined-behaviour error, see the sanitizer report"); }
inline void on_signal(int s) { crash_report(s == SIGABRT ? "abort" : s == SIGSEGV ? "segmentation fault" : s == SIGALRM ? "no termination within the time limit" : "signal"); _exit(1); }
[[noreturn]] inline void fail(const std::string& msg) {
  dead = true;
  printf("FAIL %s\n%s\n", msg.c_str(), describe ? describe().c_str() : "");
  fflush(stdout);
  _exit(1);
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline double t0 = now();
inline bool time_left() { static int k = 0; static bool ok = true; if ((++k & 31) == 0) ok = now() - t0 < budget; return ok; }
// argv: PROPERTY SEED BUDGET_SECONDS
inline std::string init(int argc, char** argv) {
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  signal(SIGABRT, on_signal);
  signal(SIGALRM, on_signal);
  if (argc > 2) rng_state ^= uint64_t(atoll(argv[2])) * 0x2545F4914F6CDD1Dull;
  if (argc > 3) budget = atof(argv[3]);
  alarm(unsigned(budget) + 60);
  return argc > 1 ? argv[1] : "";
}
inline int finish() {
  printf("OK cases=%llu interesting=%llu\n", (unsigned long long)count, (unsigned long long)interesting);
  return 0;
}
}  // namespace vp
