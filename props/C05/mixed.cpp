#include "mixed.hpp"
FACET("values of scalars with plain numbers of other types", 1) { mixed::anyScalar<false>(s); }
FACET("values of vectors with plain numbers of other types", 1) { mixed::anyVector<false>(s); }
