// The traffic domain (traffic/).
#include <cstdint>
#include <cstdarg>
#include "/repo/traffic/gridmap.cc"
#include "/repo/traffic/traffic.cc"
Traffic::Cost hof(Traffic &d, Traffic::State &s) { return d.h(s); }
Traffic::Cost dof(Traffic &d, Traffic::State &s) { return d.d(s); }
bool goal(Traffic &d, Traffic::State &s) { return d.isgoal(s); }
// One of the operators of s, or -1.
int opat(Traffic &d, Traffic::State &s, unsigned int i) { Traffic::Operators o(d, s); return i < o.size() ? o[i] : -1; }
// Is the heuristic at most the cost of the move plus the heuristic after it?
Traffic::Cost hafter(Traffic &d, Traffic::State &s, int op) { Traffic::Edge e(d, s, op); return e.cost + d.h(e.state); }
bool consistent(Traffic &d, Traffic::State &s, int op) { Traffic::Cost c = hafter(d, s, op); return d.h(s) <= c; }
Traffic::State init(Traffic &d) { return d.initialstate(); }
// Packing and unpacking into a fresh state.
Traffic::State roundtrip(Traffic &d, Traffic::State &s) { Traffic::PackedState p; d.pack(p, s); Traffic::State b; return d.unpack(b, p); }
bool samepacked(Traffic &d, Traffic::State &s, Traffic::State &t) { Traffic::PackedState p, q; d.pack(p, s); d.pack(q, t); return p.eq(&d, q); }
bool samehash(Traffic &d, Traffic::State &s, Traffic::State &t) { Traffic::PackedState p, q; d.pack(p, s); d.pack(q, t); return p.hash(&d) == q.hash(&d); }
