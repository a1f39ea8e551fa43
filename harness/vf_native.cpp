// Native implementation of vf.h: runs a harness on the compiled library with concrete inputs.
//   prog <function> <case> <tier> <inputs file> [trace]
// exit 0: all obligations hold; 1: an obligation failed ("FAIL label" on stdout); 3: inputs outside the assumptions
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <dlfcn.h>
#include <csignal>
#include <unistd.h>

static std::map<std::string, std::string> in;
static std::map<std::string, int> cnt;
static int g_case = 0, g_tier = 0;
static bool trace = false, failed = false;
static long long now_ns = 1000000000LL;
static long long start_ns = 1000000000LL;
static bool assumption_broken = false;

static std::string key(const char *n) {
  int k = cnt[n]++;
  std::string s = n;
  if (k) s += "#" + std::to_string(k);
  return s;
}
static void fail(const char *label) {
  if (!failed || !trace) { printf("FAIL %s\n", label); fflush(stdout); }
  failed = true;
}
extern "C" {
double vf_real(const char *n) {
  auto it = in.find(key(n));
  return it == in.end() ? 0.0 : strtod(it->second.c_str(), nullptr);
}
double vf_any(const char *n) { return vf_real(n); }
int vf_int(const char *n, int lo, int hi) {
  auto it = in.find(key(n));
  int v = it == in.end() ? lo : (int)strtol(it->second.c_str(), nullptr, 10);
  if (v < lo || v > hi) { printf("ASSUME\n"); fflush(stdout); _exit(failed ? 1 : 3); }
  return v;
}
int vf_pick(const char *n, int lo, int hi) { return vf_int(n, lo, hi); }
bool vf_bool(const char *n) { auto it = in.find(key(n)); return it != in.end() && it->second == "1"; }
void vf_assume(bool c) {
  if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(failed ? 1 : 3); }
}
void vf_assert(bool c, const char *l) {
  if (trace) printf("T A %s %d\n", l, (int)c);
  if (!c) fail(l);
}
void vf_eq(double a, double b, const char *l) {
  if (trace) printf("T E %s %.17g %.17g\n", l, a, b);
  if (std::isnan(a) && std::isnan(b)) return;
  if (a == b) return;
  if (!(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b)))) fail(l);
}
void vf_le(double a, double b, const char *l) {
  if (trace) printf("T L %s %.17g %.17g\n", l, a, b);
  if (!(a <= b + 1e-9 * (1 + std::fabs(a) + std::fabs(b)))) fail(l);
}
void vf_reach(const char *l) { if (trace) printf("T R %s\n", l); }
int vf_case() { return g_case; }
int vf_tier() { return g_tier; }
static bool manual = false;
double vf_sleep_us(const char *n, int) {
  auto it = in.find(key(n));
  const long us = it == in.end() ? 0 : strtol(it->second.c_str(), nullptr, 10);
  manual = true;
  now_ns += us * 1000;
  return us * 1e-3;
}
double vf_time_ms() { return (now_ns - start_ns) * 1e-6; }
// controlled clock
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  auto it = manual ? in.end() : in.find(key("!clock"));
  if (it != in.end()) now_ns = start_ns + strtoll(it->second.c_str(), nullptr, 10);
  return std::chrono::system_clock::time_point(std::chrono::nanoseconds(now_ns));
}
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
  auto it = manual ? in.end() : in.find(key("!clock"));
  if (it != in.end()) now_ns = start_ns + strtoll(it->second.c_str(), nullptr, 10);
  return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(now_ns));
}
// memory handed out is filled with a pattern so that reads of uninitialised data are visible
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (p) {
    unsigned char *q = (unsigned char *)p;
    for (size_t i = 0; i < n; ++i) q[i] = (i & 7) == 7 ? 0x41 : (i & 7) == 6 ? 0xd3 : 0x5a;
  }
  return p;
}
}
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }

static void on_sig(int s) {
  const char *m = s == SIGABRT ? "FAIL !abort\n" : s == SIGSEGV ? "FAIL !segv\n" : "FAIL !signal\n";
  if (write(1, m, strlen(m)) < 0) {}
  _exit(1);
}

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no function %s\n", argv[1]); return 2; }
  g_case = atoi(argv[2]);
  g_tier = atoi(argv[3]);
  trace = argc > 5 && !strcmp(argv[5], "trace");
  std::ifstream f(argv[4]);
  std::string line;
  while (std::getline(f, line)) {
    auto p = line.rfind(' ');
    if (p == std::string::npos || line[0] == ';') continue;
    in[line.substr(0, p)] = line.substr(p + 1);
  }
  signal(SIGABRT, on_sig); signal(SIGSEGV, on_sig); signal(SIGFPE, on_sig); signal(SIGBUS, on_sig); signal(SIGILL, on_sig);
  try {
    fn();
  } catch (const std::exception &e) {
    printf("FAIL !exception %s\n", e.what());
    return 1;
  } catch (...) {
    printf("FAIL !exception\n");
    return 1;
  }
  printf("DONE\n");
  return failed ? 1 : 0;
}
