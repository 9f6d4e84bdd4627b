// C08: executable contract of Intpq.
#include "/repo/structs/intpq.hpp"
#include "wit.hpp"
#include <set>
struct E { IntpqEntry<E> ent; unsigned prio; int id; bool in, stale; };
struct Ops { static IntpqEntry<E> &entry(E *e) { return e->ent; } };
typedef Intpq<Ops, E> Q;
int main() {
	for (int it = 0; it < (wit_thorough() ? 30000 : 4000); it++) {
		WRng r(it); int n = r(1, it % 5 == 0 ? 60 : 10); unsigned range = it % 7 == 0 ? 5000 : r(0, 3) == 0 ? 1 : r(2, 12);
		std::vector<E> a(n); for (int i = 0; i < n; i++) { a[i].id = i; a[i].in = a[i].stale = false; }
		unsigned initsz[] = { 0, 1, 2, 1024 }; unsigned isz = initsz[r(0, 3)];
		Q q(isz); std::set<E*> in; wit_ctx.clear(); wit_note("initial size %u", isz);
		int steps = 6 * n + 10, bias = r(2, 7);
		for (int s = 0; s < steps; s++) {
			E *e = &a[r(0, n-1)]; int op = r(0, 9);
			if (op < bias) {
				if (!in.count(e)) { e->prio = r(0, range); wit_note("push %d at %u", e->id, e->prio); q.push(e, e->prio); in.insert(e); e->stale = false; }
			} else if (op < 9) {
				if (in.count(e) && r(0, 2) == 0) { wit_note("rm %d from %u", e->id, e->prio); q.rm(e, e->prio); in.erase(e); }
				else {
					E *p = q.pop(); wit_note("pop -> %d", p ? p->id : -1);
					WCHECK((p != NULL) == !in.empty(), "pop returned %s with %zu elements", p ? "an element" : "null", in.size());
					if (p) { WCHECK(in.count(p), "popped element %d is not in the queue", p->id);
						for (auto x : in) WCHECK(p->prio <= x->prio, "popped %d at %u, but %d is at %u", p->id, p->prio, x->id, x->prio);
						in.erase(p); }
				}
			} else if (r(0, 9) == 0) { wit_note("clear"); q.clear(); for (auto x : in) x->stale = true; in.clear(); }
			WCHECK(q.empty() == in.empty(), "empty is %d with %zu elements", q.empty(), in.size());
			for (auto &x : a) if (!x.stale) WCHECK(q.mem(&x) == (in.count(&x) > 0), "mem(%d) is %d", x.id, q.mem(&x));
		}
		while (!in.empty()) { E *p = q.pop(); WCHECK(p && in.count(p), "draining: lost elements"); for (auto x : in) WCHECK(p->prio <= x->prio, "draining out of order"); in.erase(p); }
		WCHECK(!q.pop() && q.empty(), "not empty after draining");
	}
	return wit_done("C08");
}
