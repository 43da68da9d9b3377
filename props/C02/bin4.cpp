#include "common.hpp"
BIN(TQ, TQ)
