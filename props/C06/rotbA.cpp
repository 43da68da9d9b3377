#include "rot.hpp"
REG("rotations A Q", rot2<RotationAd, RotationQd>(s))
REG("rotations A A", rot2<RotationAd, RotationAd>(s))
