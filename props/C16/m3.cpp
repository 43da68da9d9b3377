#include "part.hpp"
using namespace pt;
PART_TRANSFORM("parts of a compact transform", OwnT<Un>)
