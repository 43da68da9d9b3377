#include "part.hpp"
using namespace pt;
PART_TRANSFORM("parts of a framed mapped compact transform", MapT<Fr>)
