#include "vec.hpp"
REG("Translationd one operand", vec1<Translationd>(s))
REG("Translationd two operands", vec2<Translationd>(s))
REG("Translationd scaling", vecs<Translationd>(s))
