#include "common.hpp"
LAWS(TM, TQ)
