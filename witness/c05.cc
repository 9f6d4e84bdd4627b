// C05: executable contract of BinHeap, run on the real template.
#include "/repo/structs/binheap.hpp"
#include "wit.hpp"
#include <set>
void fatal(const char *f, ...) { wit_fail("fatal called: %s", f); }
struct E { long key; long ind; long id; };
struct Ops {
	static void setind(E *e, long i) { e->ind = i; }
	static bool pred(E *a, E *b) { return a->key < b->key; }
};
typedef BinHeap<Ops, E*> H;
static void check(H &h, std::set<E*> &in, std::vector<E> &all) {
	WCHECK((long) h.size() == (long) in.size(), "size %ld, want %zu", h.size(), in.size());
	for (long i = 0; i < h.size(); i++) {
		E *e = h.data()[i];
		WCHECK(in.count(e), "element %ld at %ld is not in the queue", e->id, i);
		WCHECK(e->ind == i, "element %ld at index %ld has ind %ld", e->id, i, e->ind);
		if (i > 0) WCHECK(h.data()[(i-1)/2]->key <= e->key, "heap order broken at %ld", i);
	}
	if (h.size() == 0) { WCHECK(h.empty() && !h.front(), "empty heap has a front"); }
	else {
		E *f = *h.front();
		for (auto e : in) WCHECK(f->key <= e->key, "front is not minimal");
	}
}
int main() {
	for (int it = 0; it < (wit_thorough() ? 6000 : 700); it++) {
		WRng r(it);
		long n = r(1, it % 7 == 0 ? 200 : 24), range = r(0, 3) == 0 ? 3 : 100;
		std::vector<E> all(n);
		for (long i = 0; i < n; i++) { all[i].key = r(-range, range); all[i].ind = -1; all[i].id = i; }
		H h; std::set<E*> in; wit_ctx.clear();
		for (int s = 0; s < 4 * n; s++) {
			E *e = &all[r(0, n-1)];
			int op = r(0, 9);
			if (op <= 3) {
				if (!in.count(e)) {
					wit_note("push id=%ld key=%ld", e->id, e->key);
					if (r(0,1)) h.push(e); else h.pushupdate(e, -1);
					in.insert(e);
				}
			} else if (op <= 5) {
				boost::optional<E*> p = h.pop();
				wit_note("pop -> %ld", p ? (*p)->id : -1L);
				WCHECK((bool) p == !in.empty(), "pop on %zu elements returned %d", in.size(), (int) (bool) p);
				if (p) {
					WCHECK(in.count(*p), "popped element not in queue");
					for (auto x : in) WCHECK((*p)->key <= x->key, "popped %ld is not minimal", (*p)->id);
					WCHECK((*p)->ind == -1, "popped element keeps index %ld", (*p)->ind);
					in.erase(*p);
				}
			} else if (op <= 8) {
				if (in.count(e)) {
					e->key = r(-range, range);
					wit_note("update id=%ld key=%ld at %ld", e->id, e->key, e->ind);
					if (r(0,1)) h.update(e->ind); else h.pushupdate(e, e->ind);
				}
			} else if (r(0, 3) == 0) {
				std::vector<E*> add;
				for (auto &x : all) if (!in.count(&x) && r(0, 2) == 0) { add.push_back(&x); in.insert(&x); }
				wit_note("append %zu", add.size());
				h.append(add);
			} else if (r(0, 3) == 0) {
				for (auto x : in) x->key = r(-range, range);
				wit_note("reinit");
				h.reinit();
			} else if (r(0, 9) == 0) {
				h.clear(); for (auto x : in) WCHECK(x->ind == -1, "element %d still believes it is at %ld after clear", x->id, (long) x->ind); in.clear(); wit_note("clear");
			}
			check(h, in, all);
		}
	}
	// exhaustive: every key assignment of small heaps, built by append, drained
	for (int n = 1; n <= 6; n++) {
		long tot = 1; for (int i = 0; i < n; i++) tot *= 4;
		for (long c = 0; c < tot; c++) {
			std::vector<E> all(n); std::vector<E*> v; long x = c;
			for (int i = 0; i < n; i++) { all[i].key = x % 4; x /= 4; all[i].ind = -1; all[i].id = i; v.push_back(&all[i]); }
			wit_ctx.clear(); wit_note("append of %d elements, key code %ld", n, c);
			H h; h.append(v); std::set<E*> in(v.begin(), v.end());
			check(h, in, all);
			long last = -1;
			while (!h.empty()) { E *e = *h.pop(); WCHECK(e->key >= last, "out of order"); last = e->key; in.erase(e); check(h, in, all); }
			WCHECK(in.empty(), "lost elements");
		}
	}
	return wit_done("C05");
}
