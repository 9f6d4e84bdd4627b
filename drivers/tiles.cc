// The sliding tiles domain, at the board size given by -DWIDTH and -DHEIGHT.
#include <cstdint>
#include "/repo/tiles/tiles.cc"
#include "/repo/tiles/mdist.cc"
// Applying a move and taking it back.
void undo(TilesMdist &d, TilesMdist::State &s, int op) { TilesMdist::Edge e(d, s, op); }
unsigned int nops(TilesMdist &d, TilesMdist::State &s) { TilesMdist::Operators o(d, s); return o.size(); }
int opat(TilesMdist &d, TilesMdist::State &s, unsigned int i) { TilesMdist::Operators o(d, s); return o[i]; }
int vals(TilesMdist &d, TilesMdist::State &s) { return d.h(s) + d.d(s) + d.isgoal(s); }
#if WIDTH * HEIGHT <= 16
void roundtrip(TilesMdist &d, TilesMdist::PackedState &p, TilesMdist::State &s, TilesMdist::State &buf) { d.pack(p, s); d.unpack(buf, p); }
#endif
void construct(FILE *f) { TilesMdist d(f); }
