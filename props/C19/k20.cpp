#include "kinds.hpp"
using namespace ext;
FACET("framed compact transform over maps", 1) { history<Two<F2<CTr<Map<Q>, Map<V3>>>, Map<Q>, Map<V3>>, F2<Tq>, Tr<false>, false, FOthers>(s); }
