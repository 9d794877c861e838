// Executable oracles: common support.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <deque>
#include <algorithm>
#include <iterator>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <time.h>

static char g_case[4096];
static unsigned long g_cases, g_nontriv;
static double g_budget = 8;
static struct timespec g_t0;
static int g_wd = 20;

static inline double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - g_t0.tv_sec) + (t.tv_nsec - g_t0.tv_nsec) * 1e-9; }
static inline bool time_left(double frac = 1.0) { return now_s() < g_budget * frac; }

static void wd_handler(int sig)
{
	static const char *m = sig == SIGVTALRM ? "\nFAIL: no progress (hang) in case: " : "\nFAIL: fatal signal in case: ";
	if (write(1, m, strlen(m))) {}
	if (write(1, g_case, strlen(g_case))) {}
	if (write(1, "\n", 1)) {}
	_exit(1);
}
extern "C" void __asan_on_error() { if (write(1, "\nFAIL: sanitizer error in case: ", 32)) {} if (write(1, g_case, strlen(g_case))) {} if (write(1, "\n", 1)) {} }

static void wd_reset() { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = g_wd; setitimer(ITIMER_VIRTUAL, &it, NULL); }
static void CASE(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt); vsnprintf(g_case, sizeof g_case, fmt, ap); va_end(ap);
	g_cases++;
	if ((g_cases & 63) == 1) wd_reset();
}
static void NONTRIV() { g_nontriv++; }
static void FAILF(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt); printf("FAIL: "); vprintf(fmt, ap); va_end(ap);
	printf("\n  in case: %s\n", g_case);
	fflush(stdout);
	_exit(1);
}
#define CHECK(c, ...) do { if (!(c)) FAILF(__VA_ARGS__); } while (0)

static uint64_t g_rng;
static uint64_t rnd() { g_rng += 0x9E3779B97F4A7C15ULL; uint64_t z = g_rng; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static uint64_t rnd(uint64_t n) { return rnd() % n; }
// number with random bit length
static uint64_t rndbits() { unsigned b = rnd(65); return b == 0 ? 0 : (b == 64 ? rnd() | (1ULL << 63) : ((rnd() & ((1ULL << b) - 1)) | (1ULL << (b - 1)))); }

static bool g_replay = false;
// value of a variable in the verifier's counterexample (IRV_MODEL="a=1;b=2")
static bool model_u64(const char *name, uint64_t &v)
{
	const char *m = getenv("IRV_MODEL");
	if (!m) return false;
	std::string s(m), k = std::string(name) + "=";
	size_t p = 0;
	while (p < s.size())
	{
		size_t e = s.find(';', p); if (e == std::string::npos) e = s.size();
		if (s.compare(p, k.size(), k) == 0) { v = strtoull(s.substr(p + k.size(), e - p - k.size()).c_str(), NULL, 10); return true; }
		p = e + 1;
	}
	return false;
}
static std::string hexs(const void *p, size_t n) { std::string r; char b[4]; for (size_t i = 0; i < n && i < 64; i++) { snprintf(b, 4, "%02x", ((const unsigned char *)p)[i]); r += b; } return r; }
static void harness();
int main(int argc, char **argv)
{
	clock_gettime(CLOCK_MONOTONIC, &g_t0);
	g_rng = argc > 1 ? strtoull(argv[1], NULL, 10) * 7919 + 13 : 13;
	if (argc > 2) g_budget = atof(argv[2]);
	if (argc > 3 && !strcmp(argv[3], "replay")) g_replay = true;
	signal(SIGVTALRM, wd_handler);
#if !defined(__SANITIZE_ADDRESS__)
	signal(SIGSEGV, wd_handler); signal(SIGABRT, wd_handler);
#endif
	setvbuf(stdout, NULL, _IOLBF, 0);
	wd_reset();
	harness();
	printf("CASES %lu NONTRIVIAL %lu\n", g_cases, g_nontriv);
	return 0;
}
