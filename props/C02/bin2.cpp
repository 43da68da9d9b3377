#include "common.hpp"
BIN(TM, TQ)
