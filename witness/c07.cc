// C07: executable contracts of ClosedList and Htable.
#include "/repo/search/closedlist.hpp"
#include "/repo/structs/htable.hpp"
#include "wit.hpp"
#include <map>
#include <set>
void dfpair(FILE *, const char *, const char *, ...) { }
static unsigned long hmode;
static unsigned long hsh(long k) {
	switch (hmode) {
	case 0: return 0; case 1: return k; case 2: return k & 1; case 3: return (unsigned long) k * 1024;
	case 4: return ~0UL - k % 3; default: return (unsigned long) k * 0x9e3779b97f4a7c15UL; }
}
struct D;
struct P { long k; bool eq(const D*, const P &o) const { return k == o.k; } unsigned long hash(const D*) { return hsh(k); } };
struct D { typedef P PackedState; };
struct N { ClosedEntry<N, D> ent; HtableEntry<N> hent; P p; int id; };
struct Ops { static ClosedEntry<N, D> &closedentry(N *n) { return n->ent; } static P &key(N *n) { return n->p; } };
struct HOps { static HtableEntry<N> &entry(N *n) { return n->hent; } static long key(N *n) { return n->p.k; } static unsigned long hash(long k) { return hsh(k); } };
typedef ClosedList<Ops, N, D> CL;
typedef Htable<HOps, long, N> HT;
struct CW { CL t; D d; CW(unsigned sz) : t(sz) { t.init(d); }
	N *find(long k) { P p = { k }; return t.find(p); } N *find(long k, unsigned long h) { P p = { k }; return t.find(p, h); }
	N *rm(long k, bool h) { P p = { k }; return h ? t.remove(p, hsh(k)) : t.remove(p); } };

static std::vector<N> nodes;
static unsigned sizes[] = { 1, 2, 3, 7, 100, 1024 };
template<class T> static void check(T &t, std::multimap<long, N*> &in, long keys, const char *w) {
	for (long k = -1; k <= keys; k++) {
		N *n = t.find(k), *m = t.find(k, hsh(k)); auto rg = in.equal_range(k);
		WCHECK(n == m, "%s: find with and without a hash value differ for key %ld", w, k);
		WCHECK((n != NULL) == (rg.first != rg.second), "%s: find(%ld) returned %s", w, k, n ? "an element not in the table" : "null for a key in the table");
		if (n) { bool ok = false; for (auto i = rg.first; i != rg.second; ++i) ok = ok || i->second == n; WCHECK(ok, "%s: find(%ld) returned element %d", w, k, n->id); }
	}
}
int main() {
	for (int it = 0; it < (wit_thorough() ? 6000 : 900); it++) {
		WRng r(it); hmode = it % 6; int n = it % 50 == 0 ? 3000 : it % 4 == 0 ? r(50, 400) : r(1, 12); long keys = r(0, 2) ? n + 2 : r(1, 6);
		bool dups = r(0, 2) == 0; if (hmode < 4 && n > 1000) n = 400;
		unsigned sz = sizes[r(0, 5)]; wit_ctx.clear(); wit_note("initial size %u, hash mode %lu, %d elements", sz, hmode, n);
		nodes.assign(n, N()); for (int i = 0; i < n; i++) { nodes[i].id = i; nodes[i].p.k = r(0, keys - 1); }
		{ CW c(sz); std::multimap<long, N*> in; std::set<N*> used; int steps = n > 500 ? n : 4 * n + 8;
		for (int s = 0; s < steps; s++) {
			int op = r(0, 9); N *e = &nodes[r(0, n-1)]; bool wh = r(0, 1);
			if (op < 6) { if (!used.count(e) && (dups || !in.count(e->p.k))) { wit_note("closed add %d key %ld", e->id, e->p.k); if (wh) c.t.add(e, hsh(e->p.k)); else c.t.add(e); used.insert(e); in.insert({ e->p.k, e }); } }
			else if (op < 9) { long k = r(-1, keys); auto rg = in.equal_range(k); bool any = rg.first != rg.second; N *m = c.rm(k, wh); wit_note("closed remove %ld -> %d", k, m ? m->id : -1);
				WCHECK((m != NULL) == any, "closed remove(%ld) returned %s", k, m ? "an element" : "null");
				if (m) { bool ok = false; for (auto i = rg.first; i != rg.second; ++i) if (i->second == m) { in.erase(i); ok = true; break; } WCHECK(ok, "removed element %d was not in the list", m->id); used.erase(m); } }
			else if (r(0, 9) == 0) { wit_note("closed clear"); c.t.clear(); in.clear(); used.clear(); }
			WCHECK(c.t.getFill() == in.size(), "fill is %lu with %zu elements", c.t.getFill(), in.size());
			WCHECK(c.t.empty() == in.empty(), "empty() is %d with %zu elements", c.t.empty(), in.size());
			if (n < 60 || s % 97 == 0 || s + 1 == steps) {
				if (n < 60 || s + 1 == steps) check(c, in, n < 500 ? keys : 50, "closed");
				std::set<N*> seen; size_t cnt = 0; for (auto i = c.t.begin(); i != c.t.end() && cnt <= in.size(); ++i, cnt++) { WCHECK(*i != NULL, "iteration reached null"); seen.insert(*i); }
				WCHECK(cnt == in.size() && seen == used, "iteration visited %zu elements (%zu different) of %zu", cnt, seen.size(), in.size()); }
		} }
		{ HT h(sz); std::multimap<long, N*> in; std::set<N*> used; int steps = n > 500 ? n : 4 * n + 8;
		for (int s = 0; s < steps; s++) {
			int op = r(0, 9); N *e = &nodes[r(0, n-1)]; bool wh = r(0, 1);
			if (op < 6) { if (!used.count(e) && (dups || !in.count(e->p.k))) { wit_note("table add %d key %ld", e->id, e->p.k); if (wh) h.add(e, hsh(e->p.k)); else h.add(e); used.insert(e); in.insert({ e->p.k, e }); } }
			else if (op < 9) { long k = r(-1, keys); bool any = in.count(k); wit_note("table rm %ld", k); N *m = h.find(k);
				bool ok = wh ? h.rm(k, hsh(k)) : h.rm(k);
				WCHECK(ok == any, "rm(%ld) returned %d", k, ok);
				if (ok && in.count(k) == 1) { used.erase(m); in.erase(k); check(h, in, n < 500 ? keys : 50, "table after rm"); }
				else if (ok) { // one of several: find it by looking which is gone
					std::set<N*> left; for (auto rg = in.equal_range(k); rg.first != rg.second; ++rg.first) left.insert(rg.first->second);
					size_t want = left.size() - 1; std::set<N*> got; N *x;
					while ((x = h.find(k))) { WCHECK(left.count(x) && !got.count(x), "find after rm returned %d", x->id); got.insert(x); WCHECK(h.rm(k), "rm of a key just found failed"); }
					WCHECK(got.size() == want, "rm(%ld) took out %zu elements", k, left.size() - got.size());
					for (auto y : left) used.erase(y);
					in.erase(k);
					for (auto y : got) { h.add(y); in.insert({ k, y }); used.insert(y); } } }
			else if (r(0, 9) == 0) { wit_note("table clear"); h.clear(); in.clear(); used.clear(); }
			if (n < 60 || s + 1 == steps) check(h, in, n < 500 ? keys : 50, "table");
		} }
	}
	return wit_done("C07");
}
