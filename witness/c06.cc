// C06: executable contract of the bucketed open list.
#include <boost/optional.hpp>
#include "/repo/search/search.hpp"
#include "wit.hpp"
#include <set>
void dfpair(FILE *, const char *, const char *, ...) { }
double walltime() { return 0; } double cputime() { return 0; }
struct N { int f, g, ind, id; N() : ind(-1) { }
	static int prio(N *n) { return n->f; } static int tieprio(N *n) { return n->g; } static void setind(N *n, int i) { n->ind = i; } static int getind(const N *n) { return n->ind; }
	static bool pred(N *a, N *b) { return a->f == b->f ? a->g > b->g : a->f < b->f; } };
typedef OpenList<N, N, int> Q;
int main() {
	for (int it = 0; it < (wit_thorough() ? 20000 : 3000); it++) {
		WRng r(it); int n = r(1, it % 5 == 0 ? 80 : 10); int range = it % 7 == 0 ? 400 : r(0, 3) == 0 ? 1 : r(2, 12), tr = it % 11 == 0 ? 400 : r(0, 3) == 0 ? 0 : r(1, 8);
		std::vector<N> a(n); for (int i = 0; i < n; i++) a[i].id = i;
		Q q; std::set<N*> in; wit_ctx.clear(); int steps = 8 * n + 10, bias = r(2, 6); size_t idx = 0;
		for (int s = 0; s < steps; s++) {
			N *e = &a[r(0, n-1)]; int op = r(0, 9);
			if (op < bias) {
				if (!in.count(e)) { e->f = r(0, range); e->g = r(0, tr); wit_note("push %d prio %d tie %d", e->id, e->f, e->g); q.push(e); in.insert(e); }
			} else if (op < 7) {	// as the searches do it
				bool mem = q.mem(e); WCHECK(mem == (in.count(e) > 0), "mem(%d) is %d", e->id, mem);
				if (r(0, 1) && in.count(e)) { int f = r(0, range), g = r(0, tr); wit_note("update %d to prio %d tie %d", e->id, f, g); q.pre_update(e); e->f = f; e->g = g; q.post_update(e); }
				else if (!in.count(e)) { int f = r(0, range), g = r(0, tr); wit_note("update (not in) %d to prio %d tie %d", e->id, f, g); q.pre_update(e); e->f = f; e->g = g; q.post_update(e); in.insert(e); }
			} else if (op < 9) {
				if (!in.empty()) { N *p = q.pop(); wit_note("pop -> %d", p ? p->id : -1); WCHECK(p && in.count(p), "popped node is not in the list");
					for (auto x : in) WCHECK(!N::pred(x, p), "popped %d (%d,%d), but %d (%d,%d) is better", p->id, p->f, p->g, x->id, x->f, x->g);
					in.erase(p); }
			} else if (r(0, 9) == 0) { wit_note("clear"); q.clear(); in.clear(); }
			WCHECK(q.empty() == in.empty(), "empty is %d with %zu nodes", q.empty(), in.size());
			for (auto &x : a) WCHECK(q.mem(&x) == (in.count(&x) > 0), "mem(%d) is %d", x.id, q.mem(&x));
		}
		while (!in.empty()) { N *p = q.pop(); WCHECK(p && in.count(p), "draining: lost nodes"); for (auto x : in) WCHECK(!N::pred(x, p), "draining out of order"); in.erase(p); }
		WCHECK(q.empty(), "not empty after draining"); (void) idx;
	}
	return wit_done("C06");
}
