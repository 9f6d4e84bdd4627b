// C17: executable contract of the pancake puzzle (stack size from -DNCAKES).
#include "/repo/utils/utils.hpp"
#include "/repo/pancake/pancake.hpp"
#include <algorithm>
extern "C" {
#include "/repo/utils/hash.c"
}
#include "wit.hpp"
typedef Pancake D;
typedef std::vector<int> Stack;
static Stack look(D &d, D::State &s) {
	char *p = NULL; size_t n = 0; FILE *f = open_memstream(&p, &n);
	d.dumpstate(f, s); fclose(f);
	Stack b; char *q = p; for (int i = 0; i < D::Ncakes; i++) b.push_back(strtol(q, &q, 10));
	free(p); return b;
}
static int gaps(const Stack &b) { int h = b[D::Ncakes - 1] != D::Ncakes - 1; for (int i = 0; i + 1 < D::Ncakes; i++) h += abs(b[i] - b[i + 1]) != 1; return h; }
static void state(D &d, D::State &s) {
	Stack b = look(d, s); std::string t; for (int x : b) { t += ' '; t += std::to_string(x); } wit_note("stack:%s", t.c_str());
	WCHECK(d.h(s) == gaps(b) && d.d(s) == gaps(b), "h is %d, the number of gaps is %d", d.h(s), gaps(b));
	WCHECK(d.isgoal(s) == std::is_sorted(b.begin(), b.end()), "isgoal answers %d", (int) d.isgoal(s));
}
static void trial(int it) {
	WRng r(it); wit_ctx.clear();
	Stack st(D::Ncakes); for (int i = 0; i < D::Ncakes; i++) st[i] = i;
	int m = r(0, 3); if (m == 0) std::shuffle(st.begin(), st.end(), r.g); else if (m < 3) for (int k = r(0, 5); k > 0; k--) std::reverse(st.begin(), st.begin() + r(1, D::Ncakes));
	FILE *f = tmpfile(); fprintf(f, "%d\n", D::Ncakes); for (int x : st) fprintf(f, "%d\n", x);
	rewind(f); D d(f); fclose(f);
	D::State s = d.initialstate(); state(d, s); WCHECK(look(d, s) == st, "the initial stack is not the one given");
	for (int step = 0; step < 8; step++) {
		Stack b = look(d, s); int h0 = d.h(s);
		D::Operators ops(d, s); WCHECK((int) ops.size() == D::Ncakes - 1, "%u operators", ops.size());
		D::State next = s; int pick = r(0, ops.size() - 1);
		for (unsigned i = 0; i < ops.size(); i++) {
			D::State c = s;
			{
				wit_note("flip %d", ops[i]);
				D::Edge e(d, c, ops[i]); Stack x = b; std::reverse(x.begin(), x.begin() + ops[i] + 1);
				WCHECK(e.cost == 1 && e.revcost == 1 && e.revop == ops[i], "costs %d and %d, reverse operator %d", e.cost, e.revcost, e.revop);
				WCHECK(look(d, e.state) == x, "the flip gives another stack"); state(d, e.state);
				WCHECK(abs(d.h(e.state) - h0) <= 1, "h goes from %d to %d", h0, d.h(e.state));
				WCHECK(e.state.eq(&d, s) == (x == b), "the states compare equal");
				if ((int) i == pick) next = e.state;
			}
			WCHECK(look(d, c) == b && d.h(c) == h0 && c.eq(&d, s) && c.hash(&d) == s.hash(&d), "undoing the flip gives another state");
		}
		D::PackedState p; d.pack(p, s); D::State buf; D::State &u = d.unpack(buf, p);
		WCHECK(u.eq(&d, s) && d.h(u) == d.h(s), "unpacking gives another state");
		s = next;
	}
}
int main() {
	wit_quiet(); WTimer t;
	for (int it = 0; it < (wit_thorough() ? 5000 : 300) && t.s() < 40; it++) trial(it);
	return wit_done("C17");
}
