#include "/repo/structs/binheap.hpp"
struct VElm { long ind; };
struct VOps { static void setind(VElm*, long); static bool pred(VElm*, VElm*); };
template class BinHeap<VOps, VElm*>;
