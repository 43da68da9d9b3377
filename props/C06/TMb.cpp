#include "tf.hpp"
REG("transforms TM TM", tf2<TM, TM>(s))
REG("transforms TM TQ", tf2<TM, TQ>(s))
