#include "vec.hpp"
REG("Twistd one operand", vec1<Twistd>(s))
REG("Twistd two operands", vec2<Twistd>(s))
REG("Twistd scaling", vecs<Twistd>(s))
