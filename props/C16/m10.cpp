#include "part.hpp"
using namespace pt;
PART_TRANSFORM("parts of a framed mapped transform", MapU<Fr, Eigen::Matrix4d>)
