#include "tf.hpp"
REG("transform TQ", tf1<TQ>(s))
REG("transform TQ box-plus", tfplus<TQ>(s))
