#include "rot.hpp"
REG("rotation A", rot1<RotationAd>(s))
REG("rotation A box-plus", rotplus<RotationAd>(s))
REG("rotations A M", rot2<RotationAd, RotationMd>(s))
