#include "kinds.hpp"
using namespace ext;
FACET("transform over a map", 1) { run<MTr, Map<M4>, Tm, Tr<true>>(s); }
FACET("transform over a row-major map", 1) { run<MTr, Map<R4>, Tm, Tr<true>>(s); }
