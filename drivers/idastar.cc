#include <cstdint>
#include <algorithm>
#include <cassert>
#include <boost/optional.hpp>
#include "searchdom.hpp"
#include "/repo/search/idastar.hpp"
template class Idastar<SDom>;
