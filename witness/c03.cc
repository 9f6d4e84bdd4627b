// C03: weighted A* stays within its weight of the optimal cost.
#include "searchwit.hpp"
template<class C> void run(int it) {
	typedef GDom<C> D; WRng r(it); D d; d.make(r, r(0, 9) ? r(2, 14) : r(15, 200), it % 6, r(0, 2), r(0, 1) ? r(1, 9) : r(10, 60), false); wit_ctx = d.text();
	const char *ws[] = { "1", "1.05", "1.125", "1.25", "1.5", "2", "3", "10" }; const char *w = ws[r(0, 7)]; double wt = atof(w); wit_note("weight %s", w);
	for (int dd = 0; dd < 2; dd++) {
		std::vector<const char*> av = { "wastar", "-wt", w }; if (dd) av.insert(r(0, 1) ? av.begin() : av.end(), "-dropdups");
		Wastar<D> *s = mk<Wastar<D>, D>(av); const char *alg = dd ? "weighted A* dropping duplicates" : "weighted A*";
		for (int k = 0; k < 2; k++) { if (k) s->reset(); go(s, d, alg);
			if (dd == 0 || wt > 1) WCHECK(s->res.path.empty() == !someplan(d), "%s reported %s plan, the cheapest costs %g", alg, s->res.path.empty() ? "no" : "a", (double) d.tog[d.start.v]);
			if (!s->res.path.empty()) { C c = checkplan(d, s->res, alg); if (!dd) WCHECK((double) c <= wt * (double) d.tog[d.start.v], "%s: the plan costs %g, more than %s times %g", alg, (double) c, w, (double) d.tog[d.start.v]); } }
		delete s;
	}
}
int main() {
	wit_quiet();
	for (int it = 0; it < (wit_thorough() ? 40000 : 20000); it++) { run<int>(it); run<long>(it); if (it % 4 == 0) run<double>(it); }
	return wit_done("C03");
}
