// Bounded replay for C21: small maps with random obstacles; operators, arrivals, collisions and the heuristic against a direct simulation.
#include "wit.hpp"
#include "/repo/traffic/traffic.hpp"
#include <queue>
#include <cstdio>
#include <string>
#include <map>
#include <set>
typedef Traffic::State St;
// A point bouncing between 0 and n, one unit at a time.
static int bounce(int x, int dx, int n, int t) {
	long p = x + (long) dx * t; long m = 2L * n; p %= m; if (p < 0) p += m;
	return p <= n ? (int) p : (int) (m - p);
}
struct Ob { int x, y, dx, dy; };
// x, y and time of a state, as it prints itself
static void look(Traffic &d, St &s, unsigned &x, unsigned &y, unsigned &t) {
	static FILE *f = tmpfile(); rewind(f); d.dumpstate(f, s); fprintf(f, "\n"); rewind(f);
	if (fscanf(f, "%u, %u @ %u", &x, &y, &t) != 3) x = y = t = 1u << 30;
}
int main() {
	WRng r(21);
	int rounds = wit_thorough() ? 4000 : 250;
	for (int it = 0; it < rounds; it++) {
		int w = r(2, 8), h = r(2, 8), n = r(0, 5), big = it % 10 == 0;
		std::vector<Ob> obs; std::string s; char b[160];
		int sx = r(0, w-1), sy = r(0, h-1), gx = r(0, w-1), gy = r(0, h-1);
		snprintf(b, sizeof b, "%d %d %d %d\n%d %d\n", sx, sy, gx, gy, w, h); s = b;
		for (int i = 0; i < n; i++) {
			Ob o; o.x = r(0, w-1); o.y = r(0, h-1); o.dx = big ? r(-9, 9) : r(-1, 1); o.dy = big ? r(-9, 9) : r(-1, 1);
			obs.push_back(o); snprintf(b, sizeof b, "%d %d %d %d\n", o.x, o.y, o.dx, o.dy); s += b;
		}
		wit_ctx.clear(); wit_note("instance %s", s.c_str());
		FILE *f = tmpfile(); fwrite(s.data(), 1, s.size(), f); rewind(f);
		Traffic d(f); fclose(f);
		WCHECK(d.map->w == (unsigned) w && d.map->h == (unsigned) h && d.map->obstacles.size() == obs.size(), "size");
		WCHECK(d.start == (unsigned) (sy * w + sx) && d.finish == (unsigned) (gy * w + gx), "start or finish");
		for (int i = 0; i < n; i++) for (int t = 0; t < 60; t++) {
			std::pair<int, int> p = d.map->obstacles[i].positionAt(w, h, t);
			WCHECK(p.first == bounce(obs[i].x, obs[i].dx, w-1, t) && p.second == bounce(obs[i].y, obs[i].dy, h-1, t), "obstacle %d at %d: %d,%d", i, t, p.first, p.second);
		}
		auto occ = [&](int x, int y, int t) { for (auto &o : obs) if (bounce(o.x, o.dx, w-1, t) == x && bounce(o.y, o.dy, h-1, t) == y) return true; return false; };
		auto swp = [&](int x, int y, int x2, int y2, int t) { for (auto &o : obs) if (bounce(o.x, o.dx, w-1, t) == x && bounce(o.y, o.dy, h-1, t) == y && bounce(o.x, o.dx, w-1, t-1) == x2 && bounce(o.y, o.dy, h-1, t-1) == y2) return true; return false; };
		// breadth first over reachable cells and times
		typedef std::pair<int, int> K; std::set<K> seen; std::queue<std::pair<K, St>> q;
		St s0 = d.initialstate(); unsigned x, y, t; look(d, s0, x, y, t);
		WCHECK((int) x == sx && (int) y == sy && t == 0, "initial state");
		q.push(std::make_pair(K(sy * w + sx, 0), s0)); seen.insert(K(sy * w + sx, 0));
		while (!q.empty() && seen.size() < 1500) {
			K k = q.front().first; St s = q.front().second; q.pop();
			int cx = k.first % w, cy = k.first / w, ct = k.second;
			St hs(s); double hc = d.h(hs);
			WCHECK(hc >= 0 && hc <= abs(cx - gx) + abs(cy - gy), "h %g at %d,%d", hc, cx, cy);
			WCHECK(d.isgoal(s) == (cx == gx && cy == gy), "goal"); if (d.isgoal(s)) { WCHECK(hc == 0, "h at the goal"); }
			Traffic::PackedState p; d.pack(p, s); St u; d.unpack(u, p); unsigned ux, uy, ut; look(d, u, ux, uy, ut);
			WCHECK((int) ux == cx && (int) uy == cy && (int) ut == ct, "unpack");
			Traffic::Operators ops(d, s); bool gen[3][3] = {};
			for (unsigned i = 0; i < ops.size(); i++) {
				int dx = d.map->mvs[ops[i]].dx, dy = d.map->mvs[ops[i]].dy;
				WCHECK(abs(dx) + abs(dy) <= 1, "a move by %d,%d", dx, dy);
				if (abs(dx) + abs(dy) > 1) continue;
				WCHECK(!gen[dx+1][dy+1], "twice"); gen[dx+1][dy+1] = true;
				int x2 = cx + dx, y2 = cy + dy;
				Traffic::Edge e(d, s, ops[i]); look(d, e.state, ux, uy, ut);
				bool hit = occ(x2, y2, ct + 1);
				K k2 = hit ? K(sy * w + sx, 0) : K(y2 * w + x2, ct + 1);
				WCHECK((int) (uy * w + ux) == k2.first && (int) ut == k2.second, "move %d,%d from %d,%d at %d arrives at %u,%u at %u%s", dx, dy, cx, cy, ct, ux, uy, ut, hit ? " (obstacle there)" : "");
				WCHECK((double) e.cost == 1, "cost %g", (double) e.cost); WCHECK(e.revop == Traffic::Nop, "reverse");
				St t2(e.state); double h2 = d.h(t2);
				WCHECK(hc <= (double) e.cost + h2 + 1e-9, "h drops from %g to %g: move %d,%d from %d,%d at %d%s", hc, h2, dx, dy, cx, cy, ct, hit ? " (collision)" : "");
				Traffic::PackedState p2; d.pack(p2, e.state); bool same = k2 == k;
				WCHECK(p.eq(&d, p2) == same && (!same || p.hash(&d) == p2.hash(&d)), "equality");
				if (seen.insert(k2).second) q.push(std::make_pair(k2, e.state));
			}
			for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) {
				int x2 = cx + dx, y2 = cy + dy;
				bool want = abs(dx) + abs(dy) <= 1 && x2 >= 0 && y2 >= 0 && x2 < w && y2 < h && !swp(cx, cy, x2, y2, ct + 1);
				WCHECK(gen[dx+1][dy+1] == want, "move %d,%d from %d,%d at %d: generated %d, legal %d", dx, dy, cx, cy, ct, gen[dx+1][dy+1], want);
			}
		}
	}
	return wit_done("C21");
}
