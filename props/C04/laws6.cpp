#include "common.hpp"
LAWS(RotationQd, RotationAd)
