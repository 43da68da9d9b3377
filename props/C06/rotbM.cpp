#include "rot.hpp"
REG("rotations M Q", rot2<RotationMd, RotationQd>(s))
REG("rotations M A", rot2<RotationMd, RotationAd>(s))
