#include "common.hpp"
static pbt::Register r{"translation", 1, vectors<wave::Translationd>};
static pbt::Register scale{"translation at any scale", 1, scales<wave::Translationd>};
