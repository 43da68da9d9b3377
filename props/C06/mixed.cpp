#include "mixed.hpp"
FACET("derivatives of scalars with plain numbers of other types", 1) { mixed::anyScalar<true>(s); }
FACET("derivatives of vectors with plain numbers of other types", 1) { mixed::anyVector<true>(s); }
