// Bounded replay for C18: small random grids of every movement and cost model; legal moves against the flags, reverse moves, heuristics against
// exact distances.
#include "wit.hpp"
#include "/repo/gridnav/gridnav.hpp"
#include <queue>
#include <cmath>
#include <cstdio>
#include <string>
#include <map>
typedef GridNav::State St;
static std::vector<std::string> cells; // row y (0 = top of the array), without border
static int W, H;
static bool freec(int x, int y) { return x >= 0 && x < W && y >= 0 && y < H && cells[y][x] != '#'; }
static void check(GridMap &m, bool eight, bool octile, bool life, WRng &r, int tag) {
	WCHECK((int) m.w == W + 2 && (int) m.h == H + 2 && m.sz == m.w * m.h, "size %u %u", m.w, m.h);
	WCHECK(m.lifecost == life, "%d: lifecost %d", tag, m.lifecost);
	for (int gi = 0; gi < 4; gi++) {
		int gx = r(0, W-1), gy = r(0, H-1);
		if (gi == 0) gy = H - 1;
		GridNav d(&m, r(0, W-1), r(0, H-1), gx, gy);
		int g = (gy + 1) * (W + 2) + gx + 1;
		if (!freec(gx, gy)) continue;
		wit_note("map %dx%d eight %d octile %d life %d goal %d %d", W, H, eight, octile, life, gx, gy);
		// edges as the domain gives them
		std::map<int, std::vector<std::pair<int, double>>> into;
		for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
			if (!freec(x, y)) continue;
			St s((y + 1) * (W + 2) + x + 1);
			GridNav::Operators ops(d, s);
			bool seen[3][3] = {};
			for (unsigned i = 0; i < ops.size(); i++) {
				GridNav::Edge e(d, s, ops[i]);
				int nx = (int) (e.state.getLoc() % (W + 2)) - 1, ny = (int) (e.state.getLoc() / (W + 2)) - 1;
				WCHECK(freec(nx, ny), "%d: move from %d,%d to blocked %d,%d", tag, x, y, nx, ny);
				int dx = nx - x, dy = ny - y;
				WCHECK(abs(dx) <= 1 && abs(dy) <= 1 && (dx || dy), "move by %d,%d", dx, dy);
				if (abs(dx) > 1 || abs(dy) > 1) continue;
				WCHECK(!seen[dx+1][dy+1], "same move twice");
				seen[dx+1][dy+1] = true;
				double c = (dx && dy ? sqrt(2.0) : 1.0) * (life ? H - 1 - y : 1), rc = (dx && dy ? sqrt(2.0) : 1.0) * (life ? H - 1 - ny : 1);
				WCHECK(fabs((double) e.cost - c) < 1e-9, "%d: cost of %d,%d -> %d,%d is %g, not %g", tag, x, y, nx, ny, (double) e.cost, c);
				WCHECK(fabs((double) e.revcost - rc) < 1e-9, "%d: reverse cost of %d,%d -> %d,%d is %g, not %g", tag, x, y, nx, ny, (double) e.revcost, rc);
				GridNav::Edge b(d, e.state, e.revop);
				GridNav::PackedState pk, pk2; d.pack(pk, e.state); d.pack(pk2, s); St ub; WCHECK(d.unpack(ub, pk).getLoc() == e.state.getLoc() && pk.eq(&d, pk) && !pk.eq(&d, pk2), "pack");
				WCHECK(b.state.getLoc() == s.getLoc() && b.cost == e.revcost, "reverse of %d,%d -> %d,%d", x, y, nx, ny);
				GridNav::Operators back(d, e.state); bool there = false;
				for (unsigned j = 0; j < back.size(); j++) there |= back[j] == e.revop;
				WCHECK(there, "reverse operator not applicable");
				into[e.state.getLoc()].push_back(std::make_pair((int) s.getLoc(), (double) e.cost));
				St t(e.state.getLoc());
				St s2(s.getLoc());
				WCHECK((double) d.h(s2) <= (double) e.cost + (double) d.h(t) + 1e-9, "%d: h drops from %g to %g over a move of %g (%d,%d -> %d,%d, goal %d,%d)", tag, (double) d.h(s2), (double) d.h(t), (double) e.cost, x, y, nx, ny, gx, gy);
			}
			for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) {
				if (!dx && !dy) continue;
				bool want = freec(x + dx, y + dy) && (eight || !dx || !dy);
				if (dx && dy && octile && (!freec(x + dx, y) || !freec(x, y + dy))) want = false;
				WCHECK(seen[dx+1][dy+1] == want, "%d: move %d,%d from %d,%d generated %d, legal %d", tag, dx, dy, x, y, seen[dx+1][dy+1], want);
			}
		}
		std::map<int, double> dist; typedef std::pair<double, int> P; std::priority_queue<P, std::vector<P>, std::greater<P>> q; q.push(P(0, g)); dist[g] = 0;
		while (!q.empty()) { P p = q.top(); q.pop(); if (p.first > dist[p.second]) continue; for (auto &e : into[p.second]) { double c = p.first + e.second; if (!dist.count(e.first) || c < dist[e.first] - 1e-12) { dist[e.first] = c; q.push(P(c, e.first)); } } }
		St gs(g);
		WCHECK((double) d.h(gs) == 0, "%d: h of the goal %d,%d is %g", tag, gx, gy, (double) d.h(gs)); WCHECK(d.isgoal(gs), "goal");
		for (auto &e : dist) { St s(e.first); WCHECK((double) d.h(s) <= e.second + 1e-9 && (double) d.h(s) >= 0, "%d: h %g, distance %g", tag, (double) d.h(s), e.second); WCHECK(d.isgoal(s) == (e.first == g), "goal"); }
	}
}
static void make(WRng &r, int prob) { cells.assign(H, std::string(W, ' ')); for (auto &c : cells) for (auto &x : c) if (r(0, 99) < prob) x = '#'; }
int main() {
	WRng r(18);
	int rounds = wit_thorough() ? 3000 : 300;
	for (int t = 0; t < rounds; t++) {
		W = r(1, 9); H = r(1, 9); if (t % 25 == 0) W = r(10, 60); if (t % 25 == 1) H = r(10, 60); if (t % 25 == 2) { W = r(10, 30); H = r(10, 30); }
		make(r, t % 3 == 0 ? 0 : r(0, 50));
		wit_ctx.clear();
		int kind = t % 3; // four, eight, octile
		bool life = (t / 3) % 2;
		{	// built in memory
			GridMap m(W, H);
			for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) if (cells[y][x] == '#') m.block(m.index(x + 1, y + 1));
			if (kind == 1) m.seteightway(); else if (kind == 2) m.setoctile(); else m.setfourway();
			m.lifecost = life;
			check(m, kind != 0, kind == 2, life, r, t);
		}
		{	// read from a file
			std::string s; char b[64];
			if (kind == 2) { snprintf(b, sizeof b, "type octile\nheight %d\nwidth %d\nmap\n", H, W); s = b; for (int y = 0; y < H; y++) { for (int x = 0; x < W; x++) s += cells[y][x] == '#' ? '@' : '.'; s += '\n'; } }
			else { snprintf(b, sizeof b, "%d %d\nBoard:\n", H, W); s = b; for (int y = H - 1; y >= 0; y--) s += cells[y] + "\n"; s += life ? "Life\n" : "Unit\n"; s += kind == 1 ? "Eight-way\n" : "Four-way\n"; }
			FILE *f = tmpfile(); fwrite(s.data(), 1, s.size(), f); rewind(f);
			GridMap m(f); fclose(f);
			check(m, kind != 0, kind == 2, kind != 2 && life, r, t);
		}
		if (t % 4 == 0) {	// a map described by its seed
			std::string s; char b[96]; snprintf(b, sizeof b, "seed %d %d %d 0.3\n%s\n%s\n", t + 1, W, H, kind == 1 ? "Eightway" : "Fourway", life ? "Life" : "Unit"); s = b;
			FILE *f = tmpfile(); fwrite(s.data(), 1, s.size(), f); rewind(f);
			GridMap m(f); fclose(f);
			for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) cells[y][x] = m.map[m.index(x + 1, y + 1)] == '#' ? '#' : ' ';
			check(m, kind == 1, false, life, r, t);
		}
	}
	return wit_done("C18");
}
