// C13: executable contract of the control strings of one domain (CTL is its header).
#include "/repo/utils/utils.hpp"
#include <string>
#include <vector>
std::vector<unsigned int> controlvec(const std::string&);
std::string controlstr(const std::vector<unsigned int>&);
#include "wit.hpp"
static void check(const std::vector<unsigned int> &v) {
	wit_ctx.clear(); std::string t; for (auto x : v) { t += ' '; t += std::to_string(x); if (t.size() > 600) break; } wit_note("%zu controls:%s", v.size(), t.c_str());
	std::string e = controlstr(v); wit_note("control string: %s", e.substr(0, 600).c_str());
	std::vector<unsigned int> d = controlvec(e);
	WCHECK(d.size() == v.size(), "decoding gives %zu controls", d.size());
	for (unsigned i = 0; i < v.size(); i++) WCHECK(d[i] == v[i], "control %u comes back as %u", i, d[i]);
}
int main() {
	check(std::vector<unsigned int>());
	for (int it = 0; it < (wit_thorough() ? 100000 : 10000); it++) {
		WRng r(it); std::vector<unsigned int> v; int parts = r(0, 10), hi = r(0, 2) == 0 ? 127 : r(0, 1) ? 8 : 1;
		for (int p = 0; p < parts; p++) { int n = r(0, 2) ? r(0, 40) : r(120, 140); unsigned c = r(0, hi); bool run = r(0, 1); for (int i = 0; i < n; i++) v.push_back(run ? c : (unsigned) r(0, hi)); }
		check(v);
	}
	return wit_done("C13");
}
