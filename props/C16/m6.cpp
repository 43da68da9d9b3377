#include "part.hpp"
using namespace pt;
PART_TRANSFORM("parts of a block transform", BlockU)
