#include "common.hpp"
LAWS(RotationMd, RotationMd)
