// C04: IDA* returns a cheapest plan and restores the state.
#include "searchwit.hpp"
template<class C> void run(int it) {
	typedef GDom<C> D; WRng r(it); D d; d.make(r, r(2, 9), it % 4 == 0 ? 3 : it % 4 == 1 ? 2 : it % 4 == 2 ? 5 : 6, r(0, 2), r(1, 9), false);
	if (!someplan(d)) return;
	wit_ctx = d.text(); Idastar<D> *s = mk<Idastar<D>, D>({ "idastar", "-gend", "200000" });
	for (int k = 0; k < 2; k++) { if (k) s->reset(); go(s, d, "IDA*");
		if (s->res.gend >= 200000) { delete s; return; }
		WCHECK(!s->res.path.empty(), "IDA* stopped without a plan although one costs %g", (double) d.tog[d.start.v]);
		C c = checkplan(d, s->res, "IDA*"); WCHECK(c == d.tog[d.start.v], "IDA*: the plan costs %g, the cheapest %g", (double) c, (double) d.tog[d.start.v]); }
	delete s;
}
int main() {
	wit_quiet();
	for (int it = 0; it < (wit_thorough() ? 20000 : 20000); it++) { run<int>(it); run<long>(it); if (it % 4 == 0) run<double>(it); }
	return wit_done("C04");
}
