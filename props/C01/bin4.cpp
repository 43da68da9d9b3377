#include "common.hpp"
BIN(RotationQd, RotationMd)
CON(RotationQd, RotationMd)
