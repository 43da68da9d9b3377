#include "kinds.hpp"
using namespace ext;
FACET("twist over a map", 1) { run<wave::Twist, Map<V6>, Xd, Tw>(s); }
FACET("twist over a strided map", 1) { run<wave::Twist, Map<V6, 0, InnerStride<3>>, Xd, Tw>(s); }
FACET("twist over a segment of a dynamic vector", 1) { run<wave::Twist, Block<VX, 6, 1>, Xd, Tw>(s); }
