// C02: reported plans are executable, start at the start state and end at a goal.
#include "searchwit.hpp"
template<class S, class D> void plan(D &d, std::vector<const char*> av, const char *alg, int rounds = 1) {
	S *s = mk<S, D>(av);
	for (int k = 0; k < rounds; k++) { if (k) s->reset(); go(s, d, alg); if (!s->res.path.empty()) checkplan(d, s->res, alg); else WCHECK(s->res.ops.empty(), "%s: operators without states", alg); }
	delete s;
}
template<class C> void run(int it) {
	typedef GDom<C> D; WRng r(it); D d; d.make(r, r(0, 9) ? r(2, 14) : r(15, 150), it % 5, r(0, 3), r(1, 9), false); wit_ctx = d.text();
	const char *ws[] = { "1", "1.5", "3", "10" }; const char *w = ws[r(0, 3)]; const char *bw[] = { "1", "2", "5", "100" }; const char *b = bw[r(0, 3)];
	plan<Astar<D>>(d, { "astar" }, "A*", 2); plan<Wastar<D>>(d, { "wastar", "-wt", w }, "weighted A*", 2); plan<Wastar<D>>(d, { "wastar", "-dropdups", "-wt", w }, "weighted A* dropping duplicates");
	plan<Greedy<D>>(d, { "greedy" }, "greedy", 2); plan<Greedy<D>>(d, { "greedy", "-dropdups" }, "greedy dropping duplicates"); plan<Greedy<D, true>>(d, { "speedy" }, "speedy");
	plan<BeamSearch<D>>(d, { "beam", "-width", b }, "beam", 2); plan<BeamSearch<D>>(d, { "beam", "-dropdups", "-width", b }, "beam dropping duplicates");
	if (someplan(d)) { bool zero = false; for (auto &o : d.out) for (auto &a : o) zero = zero || a.cost == C(0);
		if (!zero && d.n < 9 && it % 5 != 4) plan<Idastar<D>>(d, { "idastar", "-gend", "20000" }, "IDA*"); }
	const char *ge[] = { "0", "1", "3", "7", "20" }; plan<Astar<D>>(d, { "astar", "-gend", ge[r(0, 4)] }, "A* with a limit"); plan<Wastar<D>>(d, { "wastar", "-wt", w, "-expd", ge[r(0, 4)] }, "weighted A* with a limit");
}
int main() {
	wit_quiet();
	for (int it = 0; it < (wit_thorough() ? 20000 : 2500); it++) { run<int>(it); run<long>(it); if (it % 4 == 0) run<double>(it); }
	return wit_done("C02");
}
