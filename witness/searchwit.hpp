// The real searches on random explicit state spaces.
#pragma once
#include "graphdom.hpp"
#include "/repo/search/search.hpp"
#include "/repo/utils/utils.hpp"
// the initial table size only: a 360 MB table per search is too slow to sample many state spaces
#define closed(n) closed(13)
#include "/repo/search/astar.hpp"
#include "/repo/search/wastar.hpp"
#include "/repo/search/greedy.hpp"
#include "/repo/search/beam.hpp"
#undef closed
#include "/repo/search/idastar.hpp"
template<class S, class D> S *mk(std::vector<const char*> av) { return new S((int) av.size(), av.data()); }
template<class S, class D> void go(S *s, D &d, const char *alg) {
	typename D::State s0 = d.initialstate(); s->search(d, s0);
	WCHECK(d.live == 0, "%s left %lu edges alive", alg, d.live); WCHECK(s0.v == d.start.v, "%s left the start state at %d instead of %d", alg, s0.v, d.start.v);
}
template<class D> bool someplan(D &d) { return d.tog[d.start.v] >= typename D::Cost(0); }
