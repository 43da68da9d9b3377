#include "part.hpp"
using namespace pt;
PART_TRANSFORM("parts of a framed matrix transform", OwnU<Fr, wave::RigidTransformMd>)
