#include "common.hpp"
LAWS(RotationQd, RotationMd)
