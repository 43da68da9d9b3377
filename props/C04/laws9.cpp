#include "common.hpp"
LAWS(RotationAd, RotationAd)
