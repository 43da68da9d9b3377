#include "common.hpp"
static pbt::Register r{"twist", 1, vectors<wave::Twistd>};
static pbt::Register scale{"twist at any scale", 1, scales<wave::Twistd>};
