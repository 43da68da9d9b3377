#include "kinds.hpp"
using namespace ext;
FACET("rotation over a block of a row-major matrix", 1) { run<MRot, Block<BigR, 3, 3>, Rm, Rot>(s); }
FACET("rotation over a block of a dynamic matrix", 1) { run<MRot, Block<MX, 3, 3>, Rm, Rot>(s); }
