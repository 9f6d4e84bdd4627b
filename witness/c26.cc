// C26: limits stop a search in time; without one it is never stopped early; the counts are the work done.
#include "searchwit.hpp"
template<class C> struct CDom : GDom<C> {	// counts what the search really does
	typedef GDom<C> G; typedef typename G::State State;
	mutable unsigned long nops; CDom() : nops(0) { }
	struct Operators : G::Operators { Operators(const CDom &d, const State &s) : G::Operators(d, s) { d.nops++; } };
};
template<class S, class D> void one(D &d, std::vector<const char*> av, const char *alg, unsigned long e, unsigned long g, bool exact, unsigned long maxdeg, bool noplan_is_real) {
	char eb[32], gb[32]; sprintf(eb, "%lu", e); sprintf(gb, "%lu", g); if (e) { av.push_back("-expd"); av.push_back(eb); } if (g) { av.push_back("-gend"); av.push_back(gb); }
	wit_note("%s -expd %lu -gend %lu", alg, e, g);
	S *s = mk<S, D>(av);
	for (int k = 0; k < 2; k++) {
		if (k) s->reset(); d.nops = 0; d.edges = 0; go(s, d, alg);
		WCHECK(s->res.expd == d.nops, "%s reports %lu expansions, %lu were made", alg, s->res.expd, d.nops);
		WCHECK(s->res.gend == d.edges, "%s reports %lu generated states, %lu were generated", alg, s->res.gend, d.edges);
		if (e) WCHECK(d.nops <= e, "%s made %lu expansions, the limit is %lu", alg, d.nops, e);
		if (g) WCHECK(exact ? d.edges <= g : d.edges < g + maxdeg || d.edges <= g, "%s generated %lu states, the limit is %lu and no state has more than %lu successors", alg, d.edges, g, maxdeg);
		bool reached = (e && d.nops >= e) || (g && d.edges >= g);
		if (!reached && noplan_is_real) WCHECK(s->res.path.empty() == !someplan(d), "%s stopped without reaching a limit: %s plan, the cheapest costs %g", alg, s->res.path.empty() ? "no" : "a", (double) d.tog[d.start.v]);
	}
	delete s;
}
template<class C> void run(int it) {
	typedef CDom<C> D; WRng r(it); D d; d.make(r, r(0, 9) ? r(2, 14) : r(15, 100), it % 5, r(0, 2), r(1, 9), false); wit_ctx = d.text();
	unsigned long deg = 0; for (auto &o : d.out) deg = std::max(deg, (unsigned long) o.size());
	unsigned long e = r(0, 2) ? r(1, 20) : 0, g = r(0, 2) ? r(1, 60) : 0;
	one<Astar<D>>(d, { "astar" }, "A*", e, g, false, deg, true); one<Wastar<D>>(d, { "wastar", "-wt", "2" }, "weighted A*", e, g, false, deg, true);
	one<Greedy<D>>(d, { "greedy" }, "greedy", e, g, false, deg, true); one<Greedy<D>>(d, { "-dropdups" }, "greedy dropping duplicates", e, g, false, deg, true);
	bool zero = false; for (auto &o : d.out) for (auto &a : o) zero = zero || a.cost == C(0);
	if (!zero && someplan(d) && (e || g)) one<Idastar<D>>(d, { "idastar" }, "IDA*", e, g, true, deg, true);
}
static SearchStats stats(unsigned long e, unsigned long g) { SearchStats s; s.expd = e; s.gend = g; return s; }
int main() {
	wit_quiet();
	for (int it = 0; it < 3000; it++) { WRng r(it); unsigned long e = r(0, 3), g = r(0, 3), x = r(0, 4), y = r(0, 4); char eb[32], gb[32]; sprintf(eb, "%lu", e); sprintf(gb, "%lu", g);
		const char *av[] = { "x", "-expd", eb, "-gend", gb }; Limit l(5, av); SearchStats s = stats(x, y);
		WCHECK(l.reached(s) == ((e && x >= e) || (g && y >= g)), "limit -expd %lu -gend %lu, %lu expanded, %lu generated: reached is %d", e, g, x, y, l.reached(s)); }
	for (int it = 0; it < (wit_thorough() ? 20000 : 3000); it++) { run<int>(it); run<long>(it); }
	return wit_done("C26");
}
