#include "kinds.hpp"
using namespace ext;
FACET("compact transform over maps", 1) { history<Two<CTr<Map<Q>, Map<V3>>, Map<Q>, Map<V3>>, Tq, Tr<false>>(s); }
