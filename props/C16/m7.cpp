#include "part.hpp"
using namespace pt;
PART_TRANSFORM("parts of a mapped compact transform", MapT<Un>)
