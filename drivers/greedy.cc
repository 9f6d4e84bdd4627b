#include <cstdint>
#include <algorithm>
#include <cassert>
#include <boost/optional.hpp>
#include "searchdom.hpp"
#include "/repo/search/greedy.hpp"
template struct Greedy<SDom, false>;
