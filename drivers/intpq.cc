#include "/repo/structs/intpq.hpp"
struct VElm { IntpqEntry<VElm> ent; };
struct VOps { static IntpqEntry<VElm> &entry(VElm*); };
template class Intpq<VOps, VElm>;
