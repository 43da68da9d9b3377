#include "common.hpp"
LAWS(RotationMd, RotationAd)
