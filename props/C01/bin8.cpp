#include "common.hpp"
BIN(RotationAd, RotationQd)
CON(RotationAd, RotationQd)
