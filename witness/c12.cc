// C12: executable contract of Pool.
#include "/repo/utils/pool.hpp"
#include "wit.hpp"
#include <new>
#include <map>
#include <set>
static long live, built, destroyed, dying = -1; static bool spoiled;
template<int N> struct Ob { unsigned char b[N]; Ob() { built++; live++; } ~Ob() { live--; destroyed++; if (dying >= 0) for (size_t i = 0; i < N; i++) if (((volatile unsigned char*) b)[i] != (unsigned char) (dying * 31 + i)) spoiled = true; for (size_t i = 0; i < N; i++) ((volatile unsigned char*) b)[i] = 0x5a; } };
template<class T> static void fill(T *p, unsigned v) { for (size_t i = 0; i < sizeof(T); i++) ((unsigned char*) p)[i] = (unsigned char) (v * 31 + i); }
template<class T> static void intact(T *p, unsigned v) { for (size_t i = 0; i < sizeof(T); i++) WCHECK(((unsigned char*) p)[i] == (unsigned char) (v * 31 + i), "object %u lost its contents at byte %zu", v, i); }
template<class T> static void run(int it) {
	WRng r(it); unsigned blk = r(1, 9); if (it % 11 == 0) blk = 1024;
	Pool<T> p(blk); std::map<T*, unsigned> out; unsigned id = 0; long cons = live; wit_ctx.clear(); wit_note("block size %u, object size %zu", blk, sizeof(T));
	std::vector<T*> raw, obj;
	int steps = it % 11 == 0 ? 4000 : 120, bias = r(3, 7);
	for (int s = 0; s < steps; s++) {
		if (r(0, 9) < bias || out.empty()) {
			bool c = r(0, 1); long l0 = live;
			T *o = c ? p.construct() : p.get();
			wit_note("%s -> %u", c ? "construct" : "get", id);
			WCHECK(live == l0 + (c ? 1 : 0), "construct ran %ld constructors", live - l0);
			auto nx = out.lower_bound(o);
			WCHECK(nx == out.end() || (char*) (o + 1) <= (char*) nx->first, "new object %u overlaps live object %u", id, nx->second);
			if (nx != out.begin()) { --nx; WCHECK((char*) (nx->first + 1) <= (char*) o, "new object %u overlaps live object %u", id, nx->second); }
			fill(o, id); out[o] = id++; (c ? obj : raw).push_back(o);
		} else {
			bool c = r(0, 1); auto &v = (c && !obj.empty()) || raw.empty() ? obj : raw; c = &v == &obj;
			int k = r(0, v.size() - 1); T *o = v[k]; v[k] = v.back(); v.pop_back();
			intact(o, out[o]); wit_note("%s %u", c ? "destruct" : "put", out[o]); dying = out[o]; out.erase(o); long l0 = live;
			if (c) { p.destruct(o); WCHECK(!spoiled, "destruct gave the object to the free list before destroying it"); } else p.put(o); dying = -1;
			WCHECK(live == l0 - (c ? 1 : 0), "destruct ran %ld destructors", l0 - live);
		}
		if (r(0, 5) == 0 || s + 1 == steps) for (auto &x : out) intact(x.first, x.second);
		WCHECK(p.blocks() >= 1 && (unsigned long) p.blocks() * blk >= out.size(), "fewer slots than live objects");
	}
	for (auto o : obj) p.destruct(o);
	(void) cons;
}
int main() {
	for (int it = 0; it < (wit_thorough() ? 6000 : 600); it++) {
		switch (it % 5) {
		case 0: run<Ob<1> >(it); break; case 1: run<Ob<8> >(it); break; case 2: run<Ob<24> >(it); break;
		case 3: run<Ob<40> >(it); break; default: run<Ob<3> >(it); break;
		}
	}
	return wit_done("C12");
}
