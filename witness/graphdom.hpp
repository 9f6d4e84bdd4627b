// A random explicit state space with the interface the searches expect, and an oracle for it.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <queue>
#include <functional>
#include <map>
#include <set>
#include <boost/optional.hpp>
#include <boost/none.hpp>
#include "wit.hpp"

template <class C> struct GDom {
	typedef C Cost;
	typedef int Oper;
	static int &hashm() { static int m; return m; }	// which hash function the states use
	enum { Nop = -1 };
	struct State { int v; };
	struct PackedState { int v; unsigned long hash(const GDom*) const { return hashm() == 0 ? v : hashm() == 1 ? v & 1 : (unsigned long) v * 0x9e3779b97f4a7c15UL; }
		bool eq(const GDom*, const PackedState &o) const { return v == o.v; } };
	struct Arc { int to; C cost; int rev; };
	int n; bool inplace; std::vector< std::vector<Arc> > out; std::vector<int> goal; std::vector<C> hv, dv; State start;
	mutable unsigned long live, edges;
	GDom() : live(0), edges(0) { }
	State initialstate() { return start; }
	C h(const State &s) const { return hv[s.v]; }
	C d(const State &s) const { return dv[s.v]; }
	bool isgoal(const State &s) const { return goal[s.v]; }
	struct Operators { const GDom &g; int v; Operators(const GDom &gd, const State &s) : g(gd), v(s.v) { } unsigned int size() const { return g.out[v].size(); } Oper operator[](unsigned int i) const { WCHECK(i < size(), "operator %u of %u", i, size()); return i; } };
	// edges change the state in place and restore it (the harder of the two interfaces), or work on a copy
	struct Edge { C cost; Oper revop; C revcost; State own; State &state; int old; const GDom &g;
		Edge(const GDom &gd, State &s, Oper o) : cost(0), revop(Nop), revcost(0), own(s), state(gd.inplace ? s : own), old(s.v), g(gd) {
			WCHECK(o >= 0 && o < (int) gd.out[s.v].size(), "operator %d applied in state %d, which has %zu", o, s.v, gd.out[s.v].size());
			const Arc &a = gd.out[s.v][o]; cost = a.cost; revop = a.rev; revcost = a.rev >= 0 ? gd.out[a.to][a.rev].cost : a.cost; state.v = a.to; g.live++; g.edges++; }
		~Edge() { state.v = old; g.live--; } };
	void pack(PackedState &p, const State &s) const { p.v = s.v; }
	State &unpack(State &b, const PackedState &p) const { b.v = p.v; return b; }
	std::vector<C> tog;	// true distance to a goal, -1: none
	void dist() {
		tog.assign(n, C(-1)); std::vector< std::vector< std::pair<int, C> > > in(n);
		for (int i = 0; i < n; i++) for (auto &a : out[i]) in[a.to].push_back({ i, a.cost });
		typedef std::pair<C, int> Q; std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q;
		for (int i = 0; i < n; i++) if (goal[i]) q.push({ C(0), i });
		while (!q.empty()) { Q t = q.top(); q.pop(); if (tog[t.second] >= C(0)) continue; tog[t.second] = t.first; for (auto &p : in[t.second]) if (tog[p.first] < C(0)) q.push({ t.first + p.second, p.first }); }
	}
	// hmode: 0 h=0, 1 h=h*, 2 random admissible (inconsistent), 3 random inadmissible
	void make(WRng &r, int n_, int kind, int hm, int maxc, bool dead) {
		n = n_; out.assign(n, std::vector<Arc>()); goal.assign(n, 0); hashm() = r(0, 2); inplace = r(0, 1);
		int arcs = n * r(1, 4);
		auto cst = [&]() { return C(kind == 2 ? r(1, maxc) : r(0, 3) == 0 ? 0 : r(0, maxc)); };
		auto add = [&](int a, int b, bool rev) { C c = kind == 3 ? C(1) : cst(); out[a].push_back({ b, c, Nop }); if (rev) { out[b].push_back({ a, kind == 1 ? cst() : c, (int) out[a].size() - 1 }); out[a].back().rev = out[b].size() - 1; if (a == b) { out[a][out[a].size() - 2].rev = out[a].size() - 1; } } };
		if (kind == 4 && n > 4) {	// layered graph with ever cheaper later paths: forces reopening and key updates
			int w = 3; for (int i = 0; i + w < n; i++) for (int j = 1; j <= w; j++) { out[i].push_back({ i + j, C(j == 1 ? r(0, 2) : j * j * r(1, 4)), Nop }); } arcs = n / 2;
		}
		if (kind == 5) {	// acyclic, zero costs welcome: depth-first probes end
			arcs = 0; int p = r(1, 4); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (r(0, 3) < p) { out[i].push_back({ j, C(r(0, 2) == 0 ? 0 : r(0, maxc)), Nop }); if (r(0, 3) == 0) std::swap(out[i].back(), out[i].front()); }
		}
		if (kind == 6) {	// a tree that can be walked both ways, zero costs welcome
			arcs = 0; for (int i = 1; i < n; i++) { int k = r(0, i - 1); C c = C(r(0, 2) == 0 ? 0 : r(0, maxc)); out[k].push_back({ i, c, (int) out[i].size() }); out[i].push_back({ k, c, (int) out[k].size() - 1 }); }
		}
		for (int i = 0; i < arcs; i++) { int a = r(0, n-1), b = r(0, n-1); if (kind == 3 && a == b) continue; add(a, b, r(0, 2) != 0); }
		int ng = dead ? 0 : r(0, 5) == 0 ? 0 : r(1, 3); for (int i = 0; i < ng; i++) goal[kind == 4 ? n - 1 - r(0, n / 4) : r(0, n-1)] = 1;
		start.v = kind == 4 || kind == 5 ? 0 : r(0, n-1); dist(); bool steep = r(0, 1); hv.resize(n); dv.resize(n);
		for (int i = 0; i < n; i++) { long t = tog[i] < C(0) ? 50 : (long) tog[i];
			hv[i] = hm == 0 ? C(0) : hm == 1 ? C(t) : hm == 2 ? C(steep ? r(0, 1) * t : r(0, t)) : C(goal[i] && r(0, 1) ? 0 : r(0, 2 * maxc + t)); dv[i] = C(r(0, 9)); }
	}
	std::string text() const { std::string s; char b[200]; sprintf(b, "start %d, edges %s\n", start.v, inplace ? "in place" : "copied"); s = b;
		for (int i = 0; i < n; i++) { sprintf(b, "state %d%s h %g:", i, goal[i] ? " goal" : "", (double) hv[i]); s += b; for (auto &a : out[i]) { sprintf(b, " ->%d cost %g rev %d;", a.to, (double) a.cost, a.rev); s += b; } s += "\n"; } return s; }
};
// check a reported plan: operators applied in order from the start give exactly the reported states and end in a goal. Returns its cost.
template <class D, class R> typename D::Cost checkplan(D &d, R &res, const char *alg) {
	typedef typename D::Cost C; C c(0);
	WCHECK(res.path.size() == res.ops.size() + 1, "%s: %zu states but %zu operators", alg, res.path.size(), res.ops.size());
	WCHECK(res.path.back().v == d.start.v, "%s: the plan starts at state %d", alg, res.path.back().v);
	WCHECK(d.goal[res.path[0].v], "%s: the plan ends at state %d, which is no goal", alg, res.path[0].v);
	int s = d.start.v;
	for (size_t i = res.ops.size(); i-- > 0; ) {
		int o = res.ops[i]; WCHECK(o >= 0 && o < (int) d.out[s].size(), "%s: operator %d is not applicable in state %d", alg, o, s);
		c += d.out[s][o].cost; s = d.out[s][o].to; WCHECK(s == res.path[i].v, "%s: operator %d leads to %d, the reported state is %d", alg, o, s, res.path[i].v);
	}
	return c;
}
