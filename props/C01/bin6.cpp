#include "common.hpp"
BIN(RotationQd, RotationAd)
CON(RotationQd, RotationAd)
