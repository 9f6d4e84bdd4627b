// C10: executable contract of Kdtree.
#include <cstddef>
#include "/repo/structs/kdtree.hpp"
#include "wit.hpp"
#include <cmath>
#include <set>
template<unsigned K> static void run(WRng &r, int n, int kind) {
	typedef Kdtree<K, int> T;
	T t; std::vector<std::vector<double>> pts; wit_ctx.clear();
	auto coord = [&]() -> double {
		switch (kind) {
		case 0: return r(0, 3);					// many ties
		case 1: return r(-1000, 1000) / 8.0;
		case 2: return r(0, 1) ? 0.0 : r(-2, 2) * 1e6;
		default: return r(-1000000, 1000000) / 1024.0;
		}
	};
	auto query = [&]() {
		double q[K]; std::string txt;
		for (unsigned j = 0; j < K; j++) { q[j] = coord() + (r(0, 2) == 0 ? 0.5 : 0); char b[40]; snprintf(b, sizeof b, " %g", q[j]); txt += b; }
		const typename T::N *m = t.nearest(q);
		WCHECK((m == NULL) == pts.empty(), "K=%u nearest(%s) on %zu points: %s", K, txt.c_str(), pts.size(), m ? "found one" : "nothing");
		if (!m) return;
		auto dist = [&](const double *p) { double s = 0; for (unsigned j = 0; j < K; j++) s += (p[j] - q[j]) * (p[j] - q[j]); return s; };
		double best = INFINITY; for (auto &p : pts) best = std::min(best, dist(&p[0]));
		WCHECK(m->data >= 0 && m->data < (int) pts.size(), "data %d", m->data);
		for (unsigned j = 0; j < K; j++) WCHECK(m->point[j] == pts[m->data][j], "stored point %d is changed", m->data);
		WCHECK(dist(m->point) <= best * (1 + 1e-12), "K=%u nearest(%s) is at %.17g, not %.17g", K, txt.c_str(), dist(m->point), best);
	};
	auto visit = [&]() {
		std::set<int> seen; unsigned cnt = 0;
		for (typename T::iterator it = t.begin(); it != t.end(); ++it) {
			int d = (*it)->data; cnt++;
			WCHECK(cnt <= pts.size() && d >= 0 && d < (int) pts.size() && seen.insert(d).second, "K=%u iteration visits point %d twice or too many points", K, d);
			for (unsigned j = 0; j < K; j++) WCHECK((*it)->point[j] == pts[d][j], "K=%u point %d is changed", K, d);
		}
		WCHECK(cnt == pts.size(), "K=%u iteration visits %u of %zu points", K, cnt, pts.size());
	};
	query(); visit();
	for (int i = 0; i < n; i++) {
		std::vector<double> p; std::string txt;
		if (i && r(0, 5) == 0) p = pts[r(0, i - 1)];	// duplicate
		else for (unsigned j = 0; j < K; j++) p.push_back(kind == 4 ? i : coord());
		for (double x : p) { char b[40]; snprintf(b, sizeof b, " %g", x); txt += b; }
		wit_note("insert %d:%s", i, txt.c_str());
		double a[K]; for (unsigned j = 0; j < K; j++) a[j] = p[j];
		t.insert(a, i); pts.push_back(p);
		WCHECK(t.size() == pts.size(), "size %lu after %zu insertions", t.size(), pts.size());
		if (i < 12 || i % 7 == 0) { query(); visit(); }
	}
	for (int i = 0; i < 40; i++) query();
	WCHECK(t.depth() <= pts.size() && (pts.empty() || t.depth() >= 1), "depth");
}
int main() {
	for (int it = 0; it < (wit_thorough() ? 6000 : 900); it++) {
		WRng r(it); int n = r(0, it % 20 == 0 ? 200 : 25), kind = r(0, 4);
		switch (it % 5) {
		case 0: run<1>(r, n, kind); break;
		case 1: case 2: run<2>(r, n, kind); break;
		case 3: run<3>(r, n, kind); break;
		default: run<5>(r, n, kind);
		}
	}
	return wit_done("C10");
}
