#include "common.hpp"
BIN(RotationAd, RotationAd)
CON(RotationAd, RotationAd)
