// C02: the other searches of the repository (bounded replay only, no proof): their plans are executable, start at the start state and end at a goal.
#include "graphdom.hpp"
#include "/repo/search/search.hpp"
#include "/repo/utils/utils.hpp"
#include <algorithm>
// the initial table sizes only
#define closed(n) closed(13)
#define incons(n) incons(13)
#include "/repo/search/arastar.hpp"
#include "/repo/search/bugsy.hpp"
#include "/repo/search/bugsy-slim.hpp"
#undef closed
#undef incons
#define nodes(n) nodes(13)
#include "/repo/search/lsslrtastar.hpp"
#include "/repo/search/fhatlrtastar.hpp"
#undef nodes
template<class S, class D> void plan(D &d, std::vector<const char*> av, const char *alg, bool must = false) {
	S *s = new S((int) av.size(), av.data());
	for (int k = 0; k < 2; k++) { if (k) s->reset(); typename D::State s0 = d.initialstate(); s->search(d, s0); WCHECK(d.live == 0, "%s left %lu edges alive", alg, d.live); WCHECK(s0.v == d.start.v, "%s left the start state changed", alg);
		if (!s->res.path.empty()) checkplan(d, s->res, alg); else WCHECK(s->res.ops.empty(), "%s: operators without states", alg);
		if (must) WCHECK(!s->res.path.empty(), "%s found no plan although one costs %g", alg, (double) d.tog[d.start.v]); }
	delete s;
}
template<class C> void run(int it) {
	typedef GDom<C> D; WRng r(it); D d; d.make(r, r(0, 9) ? r(2, 14) : r(15, 200), it % 7, r(0, 3), r(1, 9), false); wit_ctx = d.text();
	const char *ws[] = { "1", "1.5", "3", "10" }, *w = ws[r(0, 3)], *fs[] = { "0", "1", "5" }, *dw[] = { "0.1", "0.5", "2" }; bool some = d.tog[d.start.v] >= C(0);
	plan<Arastar<D>>(d, { "arastar", "-wt0", w, "-dwt", dw[r(0, 2)] }, "ARA*", some);
	plan<ArastarNORA<D>>(d, { "arastar", "-wt0", w, "-dwt", dw[r(0, 2)], "-lambda", "1e-9" }, "ARA* with the NORA stopping rule");
	plan<Bugsy<D>>(d, { "bugsy", "-wf", fs[r(0, 2)], "-wt", fs[r(0, 2)] }, "bugsy", some); plan<Bugsy<D>>(d, { "bugsy", "-wf", fs[r(0, 2)], "-wt", fs[r(0, 2)], "-dropdups" }, "bugsy dropping duplicates", some);
	plan<Bugsy<D>>(d, { "bugsy", "-wf", "1", "-wt", fs[r(0, 2)], r(0, 1) ? "-noresort" : "-hhat", "-expdelay", r(0, 1) ? "-dhat" : "-hhat" }, "bugsy with estimates"); plan<Bugsy_slim<D>>(d, { "bugsy-slim", "-wf", fs[r(0, 2)], "-wt", fs[r(0, 2)] }, "slim bugsy", some);
	d.make(r, r(2, 40), 6, r(0, 2), r(1, 9), false); for (int i = 0; i < d.n; i++) { int a = r(0, d.n - 1), b = r(0, d.n - 1); if (a == b) continue; C c = C(r(1, 9)); d.out[a].push_back({ b, c, (int) d.out[b].size() }); d.out[b].push_back({ a, c, (int) d.out[a].size() - 1 }); }
	for (auto &o : d.out) for (auto &a : o) if (a.cost == C(0)) a.cost = C(1); d.goal[d.n - 1] = 1; d.dist(); for (int i = 0; i < d.n; i++) d.hv[i] = C(r(0, (long) d.tog[i])); wit_ctx = d.text();
	const char *la[] = { "1", "3", "20" };
	plan<Lsslrtastar2<D>>(d, { "x", "lsslrtastar2", "-lookahead", la[r(0, 2)], "-expd", "3000", r(0, 1) ? "-onestep" : "-x", r(0, 1) ? "-complete" : "-x" }, "LSS-LRTA*"); plan<Fhatlrtastar<D>>(d, { "x", "fhatlrtastar", "-lookahead", la[r(0, 2)], "-expd", "3000", r(0, 1) ? "-onestep" : "-x" }, "f-hat LRTA*");
}
int main() {
	wit_quiet();
	for (int it = 0; it < (wit_thorough() ? 10000 : 1500); it++) { run<int>(it); run<double>(it); }
	return wit_done("C02");
}
