#include "rot.hpp"
REG("rotations Q Q", rot2<RotationQd, RotationQd>(s))
REG("rotations Q A", rot2<RotationQd, RotationAd>(s))
