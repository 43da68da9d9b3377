#include "kinds.hpp"
using namespace ext;
FACET("transform over a const map", 1) { run<MTr, Map<const M4>, Tm, Tr<true>, true>(s); }
