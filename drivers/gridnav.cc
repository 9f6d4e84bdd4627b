// Grid navigation (gridnav/).
#include <cstdint>
#include <cstdarg>
#include "/repo/gridnav/gridmap.cc"
#include "/repo/gridnav/gridnav.cc"
GridNav::Cost hof(GridNav &d, GridNav::State &s) { return d.h(s); }
GridNav::Cost dof(GridNav &d, GridNav::State &s) { return d.d(s); }
bool goal(GridNav &d, GridNav::State &s) { return d.isgoal(s); }
// One of the operators of s, or -1.
int opat(GridNav &d, GridNav::State &s, unsigned int i) { GridNav::Operators o(d, s); return i < o.size() ? o[i] : -1; }
// Is the heuristic at most the cost of the move plus the heuristic after it?
bool consistent(GridNav &d, GridNav::State &s, int op) { GridNav::Edge e(d, s, op); return d.h(s) <= e.cost + d.h(e.state); }
// Taking an operator and then its reverse: the reverse costs what was announced.
bool back(GridNav &d, GridNav::State &s, int op) { GridNav::Edge e(d, s, op); GridNav::Edge r(d, e.state, e.revop); return r.state.getLoc() == s.getLoc() && r.cost == e.revcost; }
GridNav::State init(GridNav &d) { return d.initialstate(); }
