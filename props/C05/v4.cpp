#include "common.hpp"
static pbt::Register r{"translation float", 1, vectors<TrF>};
static pbt::Register scale{"translation float at any scale", 1, scales<TrF>};
