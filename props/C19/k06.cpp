#include "kinds.hpp"
using namespace ext;
FACET("framed rotation over a quaternion map", 1) { framed2<QRot, Map<Q>, Rq, Rot>(s); }
