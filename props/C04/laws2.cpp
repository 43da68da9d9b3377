#include "common.hpp"
LAWS(RotationMd, RotationQd)
