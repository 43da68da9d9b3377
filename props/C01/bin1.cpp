#include "common.hpp"
BIN(RotationMd, RotationMd)
CON(RotationMd, RotationMd)
