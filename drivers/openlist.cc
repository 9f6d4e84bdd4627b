#include <cstdint>
#include <algorithm>
#include <boost/optional.hpp>
#include "/repo/search/search.hpp"
struct VNode { long vx; };
struct VOps { static int prio(VNode*); static int tieprio(VNode*); static void setind(VNode*, int); static int getind(const VNode*); };
template class OpenList<VOps, VNode, IntOpenCost>;
