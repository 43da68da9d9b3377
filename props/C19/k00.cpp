#include "kinds.hpp"
using namespace ext;
FACET("rotation over a matrix map", 1) { run<MRot, Map<M3>, Rm, Rot>(s); }
FACET("rotation over a row-major map", 1) { run<MRot, Map<R3>, Rm, Rot>(s); }
