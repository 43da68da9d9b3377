#include "part.hpp"
using namespace pt;
PART_TRANSFORM("parts of a matrix transform", OwnU<Un, wave::RigidTransformMd>)
