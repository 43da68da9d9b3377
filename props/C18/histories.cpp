#include "dense.hpp"
FACET("statements", 6) { sm::history<double>(s); }
FACET("statements, single precision", 2) { sm::history<float>(s); }
