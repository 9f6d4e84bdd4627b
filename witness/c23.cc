// C23: executable contract of ilog2, ipow, fallfact (utils/math.cc).
#include "/repo/utils/utils.hpp"
#include "wit.hpp"
void fatal(const char *f, ...) { wit_fail("fatal called: %s", f); }
void fatalx(int e, const char *f, ...) { wit_fail("fatalx called: %s", f); }
typedef unsigned __int128 u128;
static void log1(unsigned v) {
	unsigned want = 0; for (unsigned x = v; x; x >>= 1) want++;
	WCHECK(ilog2(v) == want, "ilog2(%u) = %u, want %u", v, ilog2(v), want);
}
static void pow1(unsigned b, unsigned e) {
	u128 r = 1; bool fits = true;
	for (unsigned i = 0; i < e; i++) { r *= b; if (r >> 64) { fits = false; break; } if (b <= 1 && i > 2) break; }
	if (fits) WCHECK(ipow(b, e) == (unsigned long) r, "ipow(%u, %u) = %lu, want %lu", b, e, ipow(b, e), (unsigned long) r);
}
static void ff1(unsigned x, unsigned n) {
	u128 r = 1; bool fits = true;
	if (n > x) r = 0;
	else for (unsigned i = 0; i < n; i++) { r *= x - i; if (r >> 64) { fits = false; break; } }
	if (fits) WCHECK(fallfact(x, n) == (unsigned long) r, "fallfact(%u, %u) = %lu, want %lu", x, n, fallfact(x, n), (unsigned long) r);
}
int main() {
	for (unsigned v = 0; v < 1000000; v++) log1(v);
	for (int b = 0; b < 32; b++) for (long d = -70000; d <= 70000; d += d > -300 && d < 300 ? 1 : 97) log1((unsigned) ((1UL << b) + d));
	for (unsigned b = 0; b < 3000; b++) for (unsigned e = 0; e <= 70; e++) pow1(b, e);
	for (unsigned b = 0; b < 3; b++) for (unsigned e = 0; e < 3000; e++) pow1(b, e);
	for (unsigned x = 0; x < 400; x++) for (unsigned n = 0; n < 440; n++) ff1(x, n);
	WRng r;
	for (int i = 0; i < (wit_thorough() ? 20000000 : 500000); i++) {
		unsigned x = (unsigned) r(0, 4294967295L), n = (unsigned) r(0, 4);
		log1(x); log1(x >> r(0, 31)); pow1(x, n); pow1(x >> r(0, 31), (unsigned) r(0, 64)); ff1(x, n); ff1(x >> r(0, 31), (unsigned) r(0, 40));
	}
	return wit_done("C23");
}
