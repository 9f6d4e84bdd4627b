// C16: executable contract of the sliding tiles domain (board size from -DWIDTH -DHEIGHT).
#include "/repo/utils/utils.hpp"
#include "/repo/tiles/mdist.hpp"
#include <algorithm>
#include <set>
#include "wit.hpp"
typedef TilesMdist D;
typedef std::vector<int> Board;
static Board look(D &d, D::State &s) {
	D::State c = s; char *p = NULL; size_t n = 0; FILE *f = open_memstream(&p, &n);
	d.dumpstate(f, c); fclose(f);
	Board b; char *q = p; for (int i = 0; i < D::Ntiles; i++) b.push_back(strtol(q, &q, 10));
	free(p); return b;
}
static int blank(const Board &b) { return std::find(b.begin(), b.end(), 0) - b.begin(); }
static int mdist(D &d, const Board &b) {
	int h = 0;
	for (int i = 0; i < D::Ntiles; i++) if (b[i]) { int g = d.goalpos[b[i]]; h += abs(i / D::Width - g / D::Width) + abs(i % D::Width - g % D::Width); }
	return h;
}
static bool goal(D &d, const Board &b) { for (int i = 0; i < D::Ntiles; i++) if (b[i] && (int) d.goalpos[b[i]] != i) return false; return true; }
static void show(const Board &b) { std::string t; for (int x : b) { t += ' '; t += std::to_string(x); } wit_note("board:%s", t.c_str()); }
static void state(D &d, D::State &s) {
	Board b = look(d, s); show(b);
	WCHECK(d.h(s) == mdist(d, b), "h is %d, the Manhattan distance is %d", d.h(s), mdist(d, b));
	WCHECK(d.isgoal(s) == goal(d, b), "isgoal answers %d", (int) d.isgoal(s));
	WCHECK(d.d(s) == mdist(d, b), "d is %d, the Manhattan distance is %d", d.d(s), mdist(d, b));
}
static void trial(int it) {
	WRng r(it); wit_ctx.clear();
	std::vector<int> st(D::Ntiles), gl(D::Ntiles);
	for (int i = 0; i < D::Ntiles; i++) st[i] = gl[i] = i;
	std::shuffle(st.begin(), st.end(), r.g);
	if (r(0, 1)) std::shuffle(gl.begin(), gl.end(), r.g);
	if (r(0, 3) == 0) st = gl;	// starts at the goal
	FILE *f = tmpfile(); fprintf(f, "%d %d\nstarting positions for each tile:\n", D::Width, D::Height);
	for (int x : st) fprintf(f, "%d\n", x);
	fprintf(f, "goal positions:\n");
	for (int x : gl) fprintf(f, "%d\n", x);
	rewind(f); D d(f); fclose(f);
	D::State s = d.initialstate(); state(d, s);
	Board b0 = look(d, s);
	for (int t = 0; t < D::Ntiles; t++) WCHECK(b0[st[t]] == t, "tile %d does not start at %d", t, st[t]);
	for (int step = 0; step < 40; step++) {
		Board b = look(d, s); int k = blank(b);
		std::set<int> want, got; if (k >= D::Width) want.insert(k - D::Width); if (k % D::Width) want.insert(k - 1); if (k % D::Width < D::Width - 1) want.insert(k + 1); if (k + D::Width < D::Ntiles) want.insert(k + D::Width);
		D::Operators ops(d, s); for (unsigned i = 0; i < ops.size(); i++) got.insert(ops[i]);
		WCHECK(got == want && ops.size() == want.size(), "blank at %d: the operators are not its neighbours", k);
		D::State next = s; int pick = r(0, ops.size() - 1);
		for (unsigned i = 0; i < ops.size(); i++) {
			D::State c = s; int h0 = d.h(s);
			{
				wit_note("move the blank to %d", ops[i]);
				D::Edge e(d, c, ops[i]);
				WCHECK(e.cost == 1 && e.revcost == 1, "costs %d and %d", e.cost, e.revcost);
				WCHECK(e.revop == k, "reverse operator %d", e.revop);
				Board n = look(d, e.state), x = b; std::swap(x[k], x[ops[i]]);
				state(d, e.state);
				WCHECK(n == x, "the move gives another board");
				WCHECK(abs(d.h(e.state) - h0) == 1, "h goes from %d to %d", h0, d.h(e.state));
				if ((int) i == pick) next = e.state;
			}
			WCHECK(look(d, c) == b && d.h(c) == h0 && c == s, "undoing the move gives another state (h %d, was %d)", d.h(c), h0);
		}
#if WIDTH * HEIGHT == 16 || WIDTH * HEIGHT == 9
		D::PackedState p, q; D::State buf; d.pack(p, s);
		D::State &u = d.unpack(buf, p);
		WCHECK(u == s && look(d, u) == b && d.h(u) == d.h(s), "unpacking gives another state (h %d, was %d)", d.h(u), d.h(s));
		d.pack(q, next); WCHECK(!q.eq(&d, p) && p.eq(&d, p) && q.hash(&d) == q.hash(&d), "two states have equal packings");
#endif
		s = next;
	}
}
int main() {
	wit_quiet(); WTimer t;
	for (int it = 0; it < (wit_thorough() ? 20000 : 1500) && t.s() < 40; it++) trial(it);
	return wit_done("C16");
}
