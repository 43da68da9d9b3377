#include "kinds.hpp"
using namespace ext;
FACET("point over a map", 1) { run<wave::Point, Map<V3>, Od, Pt>(s); }
FACET("point over a strided map", 1) { run<wave::Point, StridedV3, Od, Pt>(s); }
FACET("point over a column", 1) { run<wave::Point, Block<BigC, 3, 1>, Od, Pt>(s); }
