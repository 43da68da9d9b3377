#include "common.hpp"
CT(TQ, RotationMd)
CT(TQ, RotationQd)
CT(TQ, RotationAd)
