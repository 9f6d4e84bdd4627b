// C15: executable contract of the permutation ranker.
#include "/repo/utils/utils.hpp"
#include <algorithm>
#include <map>
#include <numeric>
#include "wit.hpp"
static unsigned long ff(unsigned x, unsigned n) { unsigned long f = 1; while (n) { f *= x--; n--; } return f; }
typedef std::vector<unsigned int> Arr;
static std::string str(const Arr &a) { std::string t; for (unsigned x : a) { t += ' '; t += std::to_string(x); } return t; }
static void all(Ranker &r, unsigned sz, unsigned n, Arr &a, std::vector<bool> &in, std::vector<bool> &got, unsigned long &cnt) {
	if (a.size() == n) {
		Arr b(a); b.resize(n + 1); unsigned long k = r.rank(&b[0]); cnt++;
		wit_ctx.clear(); wit_note("%u of %u:%s", n, sz, str(a).c_str());
		WCHECK(k < got.size(), "rank %lu is not below %zu", k, got.size());
		WCHECK(!got[k], "rank %lu belongs to another arrangement already", k);
		got[k] = true; return;
	}
	for (unsigned x = 0; x < sz; x++) if (!in[x]) { in[x] = true; a.push_back(x); all(r, sz, n, a, in, got, cnt); a.pop_back(); in[x] = false; }
}
int main() {
	wit_quiet(); WTimer t;
	for (unsigned sz = 0; sz <= (wit_thorough() ? 9u : 7u); sz++) for (unsigned n = 0; n <= sz; n++) {
		std::vector<bool> in(sz), got(ff(sz, n)); Arr a; unsigned long cnt = 0;
		if (n == sz) { Ranker r(sz); all(r, sz, n, a, in, got, cnt); } else { Ranker r(sz, n); all(r, sz, n, a, in, got, cnt); }
	}
	for (int it = 0; it < (wit_thorough() ? 200 : 30) && t.s() < 40; it++) {
		WRng g(it); unsigned sz, n;
		if (g(0, 2)) { sz = g(2, 20); n = g(1, sz); } else { n = g(1, 4); sz = g(n, n == 4 ? 1000 : n == 3 ? 100000 : 300000); }
		Ranker r(sz, n); std::map<unsigned long, Arr> seen; Arr base; std::vector<bool> in(sz);
		while (base.size() < n) { unsigned x = g(0, sz - 1); if (!in[x]) { in[x] = true; base.push_back(x); } }
		for (int k = 0; k < (sz > 10000 ? 8 : 400); k++) {
			Arr a = base;	// neighbours of one arrangement
			for (int m = g(0, 2); m > 0; m--) { unsigned i = g(0, n - 1), x = g(0, 3) ? (a[i] + g(1, 2)) % sz : g(0, sz - 1); auto p = std::find(a.begin(), a.end(), x); if (p != a.end()) std::swap(*p, a[i]); else a[i] = x; }
			unsigned long v = r.rank(&a[0]);
			wit_ctx.clear(); wit_note("%u of %u:%s", n, sz, str(a).c_str());
			WCHECK(v < ff(sz, n), "rank %lu is not below %lu", v, ff(sz, n));
			auto s = seen.insert(std::make_pair(v, a));
			WCHECK(s.first->second == a, "rank %lu is also the rank of%s", v, str(s.first->second).c_str());
		}
	}
	return wit_done("C15");
}
