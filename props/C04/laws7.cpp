#include "common.hpp"
LAWS(RotationAd, RotationMd)
