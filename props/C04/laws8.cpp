#include "common.hpp"
LAWS(RotationAd, RotationQd)
