#include <cstdint>
#include <algorithm>
#include <cassert>
#include <boost/optional.hpp>
#include "searchdom.hpp"
#include "/repo/search/wastar.hpp"
template struct Wastar<SDom>;
