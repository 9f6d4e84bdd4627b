// The pancake puzzle, at the stack size given by -DNCAKES.
#include <cstdint>
#include "/repo/pancake/pancake.cc"
// Applying a flip and taking it back.
void undo(Pancake &d, Pancake::State &s, int op) { Pancake::Edge e(d, s, op); }
unsigned int nops(Pancake &d, Pancake::State &s) { Pancake::Operators o(d, s); return o.size(); }
int opat(Pancake &d, Pancake::State &s, unsigned int i) { Pancake::Operators o(d, s); return o[i]; }
int vals(Pancake &d, Pancake::State &s) { return d.h(s) + d.d(s) + d.isgoal(s); }
bool same(Pancake &d, Pancake::State &s, Pancake::State &t) { return s.eq(&d, t); }
void roundtrip(Pancake &d, Pancake::PackedState &p, Pancake::State &s) { d.pack(p, s); }
void construct(FILE *f) { Pancake d(f); }
