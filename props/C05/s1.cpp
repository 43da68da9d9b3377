#include "common.hpp"
static pbt::Register r{"scalars double", 1, scalars<double>};
