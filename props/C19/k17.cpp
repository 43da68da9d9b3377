#include "kinds.hpp"
using namespace ext;
FACET("framed transform over a map", 1) { framed2<MTr, Map<M4>, Tm, Tr<true>>(s); }
