#include "kinds.hpp"
using namespace ext;
FACET("translation over a map", 1) { run<wave::Translation, Map<V3>, Pd, Vec<false>>(s); }
FACET("translation over a strided map", 1) { run<wave::Translation, StridedV3, Pd, Vec<false>>(s); }
FACET("translation over a segment", 1) { run<wave::Translation, Block<V12, 3, 1>, Pd, Vec<false>>(s); }
FACET("translation over a const map", 1) { run<wave::Translation, Map<const V3>, Pd, Vec<false>, true>(s); }
