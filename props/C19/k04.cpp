#include "kinds.hpp"
using namespace ext;
FACET("rotation over a const matrix map", 1) { run<MRot, Map<const M3>, Rm, Rot, true>(s); }
