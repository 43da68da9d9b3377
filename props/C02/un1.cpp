#include "common.hpp"
UN(TM)
