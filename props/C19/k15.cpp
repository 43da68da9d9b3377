#include "kinds.hpp"
using namespace ext;
FACET("transform over a block", 1) { run<MTr, Block<BigC, 4, 4>, Tm, Tr<true>>(s); }
FACET("transform over a strided map", 1) { run<MTr, Map<M4, 0, OuterStride<7>>, Tm, Tr<true>>(s); }
