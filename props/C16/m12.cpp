#include "part.hpp"
using namespace pt;
PART_TWIST("parts of a twist", OwnX<Un>)
PART_TWIST("parts of a mapped twist", MapX<Un>)
PART_TWIST("parts of a block twist", BlockX)
