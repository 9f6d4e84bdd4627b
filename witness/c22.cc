// C22: executable contract of the checked arithmetic (utils/safeops.hpp).
#include "/repo/utils/safeops.hpp"
#include "wit.hpp"
typedef __int128 I;
static std::string str(I v) { bool n = v < 0; if (n) v = -v; std::string s; do { s.insert(s.begin(), '0' + (int) (v % 10)); v /= 10; } while (v); return n ? "-" + s : s; }
template<class N> void one(N a, N b, const char *ty) {
	I mn = std::numeric_limits<N>::min(), mx = std::numeric_limits<N>::max();
	for (int op = 0; op < 4; op++) {
		bool want = true; I e = 0;
		if (op == 0) e = (I) a + (I) b;
		if (op == 1) e = (I) a - (I) b;
		if (op == 2 && __builtin_mul_overflow((I) a, (I) b, &e)) want = false;
		if (op == 3) { if (b == 0) want = false; else e = (I) a / (I) b; }
		want = want && mn <= e && e <= mx;
		bool got = true; N r = 0;
		try { r = op == 0 ? safe::add(a, b) : op == 1 ? safe::sub(a, b) : op == 2 ? safe::mul(a, b) : safe::div(a, b); }
		catch (const safe::BadFlow<N> &) { got = false; }
		WCHECK(got == want, "%s: %s %c %s %s", ty, str(a).c_str(), "+-*/"[op], str(b).c_str(), want ? "fits but is reported" : "does not fit but is not reported");
		if (got) WCHECK((I) r == e, "%s: %s %c %s = %s, want %s", ty, str(a).c_str(), "+-*/"[op], str(b).c_str(), str(r).c_str(), str(e).c_str());
		if (op == 2) WCHECK(safe::can_mul(a, b) == want, "%s: can_mul(%s, %s)", ty, str(a).c_str(), str(b).c_str());
	}
}
template<class N> void all(const char *ty) {
	for (long a = std::numeric_limits<N>::min(); a <= std::numeric_limits<N>::max(); a++)
		for (long b = std::numeric_limits<N>::min(); b <= std::numeric_limits<N>::max(); b++) one<N>(a, b, ty);
}
template<class N> void edge(const char *ty) {
	std::vector<N> v;
	int bits = sizeof(N) * 8;
	for (int i = 0; i < bits; i += i > 3 && i < bits - 4 ? 3 : 1) for (int d = -1; d <= 1; d++) { N p = (N) ((unsigned long) 1 << i); v.push_back((N) ((unsigned long) p + d)); v.push_back((N) (0 - (unsigned long) p + d)); }
	for (long q = 1; q <= 12; q++) for (int d = -1; d <= 1; d++) { v.push_back((N) ((unsigned long) (std::numeric_limits<N>::max() / (N) q) + d)); if (q > 1 || d > 0) v.push_back((N) ((unsigned long) (std::numeric_limits<N>::min() / (N) q) + d)); v.push_back((N) q); v.push_back((N) (0 - (unsigned long) q)); }
	for (auto a : v) for (auto b : v) one<N>(a, b, ty);
	WRng r(bits);
	for (int i = 0; i < (wit_thorough() ? 3000000 : 30000); i++) {
		N a = (N) (r.g() >> r(0, bits - 1)), b = (N) (r.g() >> r(64 - bits, 63));
		one<N>(a, b, ty); if (b != 0 && !(std::numeric_limits<N>::is_signed && b == (N) -1)) { N q = std::numeric_limits<N>::max() / b; one<N>(q, b, ty); one<N>((N) ((unsigned long) q + 1), b, ty); }
	}
}
int main() {
	all<signed char>("signed char"); all<unsigned char>("unsigned char");
	edge<short>("short"); edge<unsigned short>("unsigned short"); edge<int>("int"); edge<unsigned int>("unsigned int");
	edge<long>("long"); edge<unsigned long>("unsigned long");
	return wit_done("C22");
}
