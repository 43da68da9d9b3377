#include "common.hpp"
LAWS(TQ, TQ)
