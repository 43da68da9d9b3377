#include "common.hpp"
BIN(RotationMd, RotationQd)
CON(RotationMd, RotationQd)
