// C11: executable contract of Djset.
#include <cstddef>
#include "/repo/structs/djset.hpp"
#include "wit.hpp"
static void check(std::vector<Djset> &s, std::vector<int> &cls) {
	std::vector<Djset*> rep(s.size());
	for (size_t i = 0; i < s.size(); i++) rep[i] = s[i].find();
	for (size_t i = 0; i < s.size(); i++) {
		WCHECK(rep[i] >= &s[0] && rep[i] <= &s[s.size()-1] && cls[rep[i] - &s[0]] == cls[i], "representative of %zu is not in its set", i);
		WCHECK(s[i].find() == rep[i], "representative of %zu changed by finding", i);
		for (size_t j = 0; j < i; j++)
			WCHECK((rep[i] == rep[j]) == (cls[i] == cls[j]), "%zu and %zu: same representative %d, connected %d", i, j, rep[i] == rep[j], cls[i] == cls[j]);
	}
}
static void join(std::vector<Djset> &s, std::vector<int> &cls, int a, int b) {
	wit_note("join %d %d", a, b);
	s[a].join(s[b]);
	int ca = cls[a], cb = cls[b];
	for (auto &c : cls) if (c == cb) c = ca;
}
int main() {
	{ Djset a; WCHECK(a.find() == &a && a.aux == NULL, "fresh set does not represent itself"); Djset b; a.join(b); WCHECK(a.find() == b.find(), "joined"); a.clear(); b.clear(); WCHECK(a.find() == &a && b.find() == &b, "cleared set"); }
	// all sequences of up to 4 joins over 4 sets, with the finds before each check skipped or not
	for (int code = 0; code < 16*16*16*16; code++) {
		std::vector<Djset> s(4); for (auto &x : s) x.clear();
		std::vector<int> cls{0,1,2,3}; wit_ctx.clear(); int c = code;
		for (int k = 0; k < 4; k++, c /= 16) join(s, cls, c % 4, c / 4 % 4);
		check(s, cls);
	}
	for (int it = 0; it < (wit_thorough() ? 40000 : 3000); it++) {
		WRng r(it); int n = r(2, it % 10 == 0 ? 60 : 12);
		std::vector<Djset> s(n); for (auto &x : s) x.clear();
		std::vector<int> cls(n); for (int i = 0; i < n; i++) cls[i] = i;
		wit_ctx.clear();
		for (int k = 0; k < 2 * n; k++) {
			join(s, cls, r(0, n-1), r(0, n-1));
			if (r(0, 3) == 0) { int x = r(0, n-1); wit_note("find %d", x); s[x].find(); }
			if (r(0, 3) == 0) check(s, cls);
		}
		check(s, cls);
	}
	return wit_done("C11");
}
