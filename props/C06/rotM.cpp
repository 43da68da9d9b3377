#include "rot.hpp"
REG("rotation M", rot1<RotationMd>(s))
REG("rotation M box-plus", rotplus<RotationMd>(s))
REG("rotations M M", rot2<RotationMd, RotationMd>(s))
