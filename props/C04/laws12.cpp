#include "common.hpp"
LAWS(TQ, TM)
