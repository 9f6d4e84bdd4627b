// Permutation ranks.
#include <cstdint>
#include "/repo/utils/math.cc"
#include "/repo/utils/rank.cc"
// Do two arrangements have the same rank?
bool samerank(Ranker &r, const unsigned int p[], const unsigned int q[]) { return r.rank(p) == r.rank(q); }
