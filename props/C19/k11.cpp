#include "kinds.hpp"
using namespace ext;
FACET("framed point over a map", 1) { framed2<wave::Point, Map<V3>, Od, Pt>(s); }
