#include <cstdint>
#include <algorithm>
#include <boost/optional.hpp>
#include "searchdom.hpp"
#include "/repo/search/astar.hpp"
template struct Astar<SDom>;
