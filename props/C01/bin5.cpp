#include "common.hpp"
BIN(RotationQd, RotationQd)
CON(RotationQd, RotationQd)
