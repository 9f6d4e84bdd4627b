// C13: executable contract of the run-length coding.
#include "/repo/utils/utils.hpp"
#include "wit.hpp"
static std::string dump(const std::string &s) { std::string o; char b[8]; for (unsigned i = 0; i < s.size() && i < 400; i++) { snprintf(b, sizeof(b), "%02x", (unsigned char) s[i]); o += b; } if (s.size() > 400) o += "..."; return o; }
static void check(const std::string &s) {
	wit_ctx.clear(); wit_note("%zu bytes: %s", s.size(), dump(s).c_str());
	std::string e = runlenenc(s); wit_note("encoded: %s", dump(e).c_str());
	std::string d = runlendec(e);
	WCHECK(d == s, "run-length decoding gives %zu bytes %s", d.size(), dump(d).c_str());
}
int main() {
	check("");
	for (int n = 1; n < 1200; n++) { check(std::string(n, 'a')); check(std::string(n, '\x80')); check(std::string(n, '\0')); std::string s; for (int i = 0; i < n; i++) s += (char) (i * 7 + i / 256); check(s); }
	for (int a = 0; a < 8; a++) for (int n = 120; n < 135; n++) for (int m = 0; m < 6; m++) for (int k = 120; k < 135; k++) {
		std::string s; for (int i = 0; i < n; i++) s += (a & 1) ? 'x' : (char) ('a' + i % 2);
		s += std::string(m, 'z'); for (int i = 0; i < k; i++) s += (a & 2) ? (a & 4 ? '\xff' : 'q') : (char) ('k' + i % 3); check(s);
	}
	for (int it = 0; it < (wit_thorough() ? 200000 : 20000); it++) {
		WRng r(it); std::string s; int parts = r(0, 12), al = r(1, 3);
		for (int p = 0; p < parts; p++) { int k = r(0, 3); int n = k == 0 ? r(0, 5) : k == 1 ? r(1, 20) : k == 2 ? r(120, 135) : r(0, 300); if (r(0, 1)) s += std::string(n, (char) r(0, 255)); else for (int i = 0; i < n; i++) s += (char) (al == 1 ? r(0, 1) : al == 2 ? r(126, 131) : r(0, 255)); }
		check(s);
	}
	return wit_done("C13");
}
