// C30: greedy search reports no plan only when no goal is reachable.
#include "searchwit.hpp"
template<class S, class C> void run1(GDom<C> &d, std::vector<const char*> av, const char *alg) {
	S *s = mk<S, GDom<C> >(av);
	for (int k = 0; k < 2; k++) { if (k) s->reset(); go(s, d, alg); WCHECK(s->res.path.empty() == !someplan(d), "%s reported %s plan, the cheapest costs %g", alg, s->res.path.empty() ? "no" : "a", (double) d.tog[d.start.v]); if (!s->res.path.empty()) checkplan(d, s->res, alg); }
	delete s;
}
template<class C> void run(int it) {
	typedef GDom<C> D; WRng r(it); D d; d.make(r, r(0, 9) ? r(2, 14) : r(15, 200), it % 5, r(0, 3), r(1, 9), false); wit_ctx = d.text();
	run1<Greedy<D>, C>(d, { "greedy" }, "greedy"); run1<Greedy<D>, C>(d, { "greedy", "-dropdups" }, "greedy dropping duplicates");
	run1<Greedy<D, true>, C>(d, { "speedy" }, "speedy"); run1<Greedy<D, true>, C>(d, { "-dropdups", "speedy" }, "speedy dropping duplicates");
}
int main() {
	wit_quiet();
	for (int it = 0; it < (wit_thorough() ? 20000 : 3000); it++) { run<int>(it); run<long>(it); if (it % 4 == 0) run<double>(it); }
	return wit_done("C30");
}
