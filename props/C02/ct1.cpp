#include "common.hpp"
CT(TM, RotationMd)
CT(TM, RotationQd)
CT(TM, RotationAd)
