#include "common.hpp"
BIN(RotationAd, RotationMd)
CON(RotationAd, RotationMd)
