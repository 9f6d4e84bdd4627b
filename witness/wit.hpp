// Shared bits of the executable contracts.
#pragma once
#include <cstdio>
#include <unistd.h>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <random>
#include <chrono>

static inline unsigned long wit_seed() {
	const char *s = getenv("VERIF_SEED");
	return s ? strtoul(s, NULL, 10) : 1;
}
static inline bool wit_thorough() {
	const char *s = getenv("VERIF_TIER");
	return s && !strcmp(s, "thorough");
}
struct WRng {
	std::mt19937_64 g;
	WRng(unsigned long salt = 0) : g(wit_seed() * 1000003UL + salt) { }
	long operator()(long lo, long hi) { return lo + (long) (g() % (unsigned long) (hi - lo + 1)); }	// inclusive
};
static unsigned long wit_cases;
static FILE *wit_out = stdout;
// the code under test prints to stdout; keep our own line open
static inline void wit_quiet() { wit_out = fdopen(dup(1), "w"); if (!freopen("/dev/null", "w", stdout)) abort(); }
static std::string wit_ctx;
static inline void wit_note(const char *fmt, ...) {
	char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
	wit_ctx += b; wit_ctx += "\n";
	if (wit_ctx.size() > 200000) wit_ctx.erase(0, 100000);
}
static inline void wit_fail(const char *fmt, ...) {
	char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
	fprintf(wit_out, "WITNESS %s\n", b);
	if (wit_ctx.size() > 6000) wit_ctx = "..." + wit_ctx.substr(wit_ctx.size() - 6000);
	fprintf(wit_out, "history:\n%s", wit_ctx.c_str());
	fflush(wit_out);
	_Exit(1);
}
#define WCHECK(c, ...) do { wit_cases++; if (!(c)) wit_fail(__VA_ARGS__); } while (0)
static inline int wit_done(const char *what) {
	fprintf(wit_out, "OK %s: %lu checks\n", what, wit_cases); fflush(wit_out);
	return 0;
}
struct WTimer {
	std::chrono::steady_clock::time_point t0;
	WTimer() : t0(std::chrono::steady_clock::now()) { }
	double s() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
};
