#include "vec.hpp"
REG("RelativeRotationd one operand", vec1<RelativeRotationd>(s))
REG("RelativeRotationd two operands", vec2<RelativeRotationd>(s))
REG("RelativeRotationd scaling", vecs<RelativeRotationd>(s))
