#include "kinds.hpp"
using namespace ext;
FACET("framed twist over a map", 1) { framed3<wave::Twist, Map<V6>, Xd, Tw>(s); }
