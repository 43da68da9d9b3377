#include "tf.hpp"
REG("transforms TQ TM", tf2<TQ, TM>(s))
REG("transforms TQ TQ", tf2<TQ, TQ>(s))
