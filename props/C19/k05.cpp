#include "kinds.hpp"
using namespace ext;
FACET("framed rotation over a map", 1) { framed2<MRot, Map<M3>, Rm, Rot>(s); }
