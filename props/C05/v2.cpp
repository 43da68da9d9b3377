#include "common.hpp"
static pbt::Register r{"relative rotation", 1, vectors<wave::RelativeRotationd>};
static pbt::Register scale{"relative rotation at any scale", 1, scales<wave::RelativeRotationd>};
