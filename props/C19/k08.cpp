#include "kinds.hpp"
using namespace ext;
FACET("relative rotation over a map", 1) { run<wave::RelativeRotation, Map<V3>, Wd, Vec<true>>(s); }
FACET("relative rotation over a column", 1) { run<wave::RelativeRotation, Block<BigR, 3, 1>, Wd, Vec<true>>(s); }
FACET("framed relative rotation over a segment", 1) { framed3<wave::RelativeRotation, Block<V12, 3, 1>, Wd, Vec<true>>(s); }
