#include "part.hpp"
using namespace pt;
PART_TRANSFORM("parts of a framed compact transform", OwnT<Fr>)
