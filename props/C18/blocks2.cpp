#include "blocks.hpp"
namespace {
template <typename X> void rowOf(pbt::Source &s, int k) {
    switch (k) {
        case 0: blocks<X, wave::Translationd>(s); break;
        case 1: blocks<X, wave::Twistd>(s); break;
        case 2: blocks<X, double>(s); break;
        case 3: blocks<X, wave::RigidTransformQd>(s); break;
        case 4: blocks<X, cmp::VecN<wave::Translationd, wave::Scalar<double>, wave::Twistd>>(s); break;
        default: blocks<X, wave::Framed<wave::RotationMd, A, B>>(s);
    }
}
FACET("block matrices 2", 1) {
    const int k = (int) s.below(6);
    if (s.coin()) rowOf<cmp::VecN<wave::Scalar<double>, wave::Translationd, wave::Scalar<double>>>(s, k);
    else rowOf<wave::Framed<wave::Twistd, A, B, C>>(s, k);
}
}  // namespace
