#include "kinds.hpp"
using namespace ext;
FACET("compact transform over a map and a strided map", 1) { history<Two<CTr<Map<Q>, StridedV3>, Map<Q>, StridedV3>, Tq, Tr<false>>(s); }
FACET("compact transform over a map and a segment", 1) { history<Two<CTr<Map<Q>, Block<V12, 3, 1>>, Map<Q>, Block<V12, 3, 1>>, Tq, Tr<false>>(s); }
