#include "tf.hpp"
REG("transform TM", tf1<TM>(s))
REG("transform TM box-plus", tfplus<TM>(s))
