#include "part.hpp"
using namespace pt;
PART_TRANSFORM("parts of a mapped row-major transform", MapU<Un, M4R>)
