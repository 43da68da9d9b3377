#include "rot.hpp"
REG("rotation Q", rot1<RotationQd>(s))
REG("rotation Q box-plus", rotplus<RotationQd>(s))
REG("rotations Q M", rot2<RotationQd, RotationMd>(s))
