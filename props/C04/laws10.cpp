#include "common.hpp"
LAWS(TM, TM)
