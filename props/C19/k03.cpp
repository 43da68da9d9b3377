#include "kinds.hpp"
using namespace ext;
FACET("rotation over a quaternion map", 1) { run<QRot, Map<Q>, Rq, Rot>(s); }
FACET("rotation over a const quaternion map", 1) { run<QRot, Map<const Q>, Rq, Rot, true>(s); }
