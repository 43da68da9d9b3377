#include "common.hpp"
BIN(TM, TM)
