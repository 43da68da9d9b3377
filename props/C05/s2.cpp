#include "common.hpp"
static pbt::Register r{"scalars float", 1, scalars<float>};
