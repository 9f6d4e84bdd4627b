#include <cstddef>
#include "/repo/structs/djset.hpp"
