#include "common.hpp"
BIN(TQ, TM)
