// C01: A* finds a cheapest plan, or reports none when none exists.
#include "searchwit.hpp"
template<class C> void run(int it, Astar< GDom<C> > *&reuse) {
	WRng r(it); GDom<C> d; d.make(r, r(0, 9) ? r(2, 14) : r(15, 200), it % 6, r(0, 2), r(0, 1) ? r(1, 9) : r(10, 60), false); wit_ctx = d.text();
	const char *cn = sizeof(C) == 4 ? "A* (int costs)" : std::is_same<C, double>::value ? "A* (double costs)" : "A* (long costs)";
	for (int again = 0; again < 2; again++) {
		Astar< GDom<C> > *a = again ? reuse : mk<Astar< GDom<C> >, GDom<C> >({ "astar" }); if (again) a->reset();
		go(a, d, cn);
		WCHECK(a->res.path.empty() == !someplan(d), "%s reported %s plan, the cheapest costs %g", cn, a->res.path.empty() ? "no" : "a", (double) d.tog[d.start.v]);
		if (!a->res.path.empty()) { C c = checkplan(d, a->res, cn); WCHECK(c == d.tog[d.start.v], "%s: the plan costs %g, the cheapest %g", cn, (double) c, (double) d.tog[d.start.v]); }
		if (!again) { if (reuse) delete reuse; reuse = a; }
	}
}
int main() {
	wit_quiet(); Astar< GDom<int> > *a = NULL; Astar< GDom<long> > *b = NULL; Astar< GDom<double> > *c = NULL;
	for (int it = 0; it < (wit_thorough() ? 40000 : 12000); it++) { run<int>(it, a); run<long>(it, b); if (it % 4 == 0) run<double>(it, c); }
	return wit_done("C01");
}
