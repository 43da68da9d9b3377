#include "common.hpp"
UN(TQ)
