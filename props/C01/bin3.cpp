#include "common.hpp"
BIN(RotationMd, RotationAd)
CON(RotationMd, RotationAd)
