#include "common.hpp"
LAWS(RotationQd, RotationQd)
