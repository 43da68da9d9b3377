#include "part.hpp"
using namespace pt;
PART_TRANSFORM("parts of a row-major matrix transform", OwnU<Un, wave::MatrixRigidTransform<M4R>>)
