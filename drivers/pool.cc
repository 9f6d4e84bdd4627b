#include "/repo/utils/pool.hpp"
struct VObj { VObj(); ~VObj(); long a, b; };
template class Pool<VObj>;
