#include <cstdint>
#include <algorithm>
#include <cassert>
#include <cstdlib>
#include <cstring>
#include <boost/optional.hpp>
#include "searchdom.hpp"
#include "/repo/search/beam.hpp"
template struct BeamSearch<SDom>;
