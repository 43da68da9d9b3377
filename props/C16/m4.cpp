#include "part.hpp"
using namespace pt;
PART_TRANSFORM("parts of a mapped matrix transform", MapU<Un, Eigen::Matrix4d>)
