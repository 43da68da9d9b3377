#include "kinds.hpp"
using namespace ext;
FACET("framed translation over a map", 1) { framed3<wave::Translation, Map<V3>, Pd, Vec<false>>(s); }
