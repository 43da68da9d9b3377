#include "kinds.hpp"
using namespace ext;
FACET("rotation over a strided map", 1) { run<MRot, Map<M3, 0, OuterStride<5>>, Rm, Rot>(s); }
FACET("rotation over a block", 1) { run<MRot, Block<BigC, 3, 3>, Rm, Rot>(s); }
