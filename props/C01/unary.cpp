#include "common.hpp"
UN(RotationMd)
UN(RotationQd)
UN(RotationAd)
// a long product of rotations stays a rotation and equals the reference product
FACET("long chain", 1) {
    int n = s.range(1, 30);
    RotationMd m = leaf<RotationMd>(s, {}, "m");
    RotationQd q{m};
    ref::Val r = val(m);
    for (int i = 0; i < n; ++i) {
        if (s.coin()) {
            const auto b = leaf<RotationQd>(s, {}, "b");
            r = ref::mul(r, val(b));
            m = m * b; q = q * b;
        } else {
            const auto b = leaf<RotationAd>(s, {}, "b");
            r = ref::mul(ref::inv(val(b)), r);
            m = inverse(b) * m; q = inverse(b) * q;
        }
    }
    s.nontrivial();
    check(m, r, 1e-12L, "matrix chain");
    check(q, r, 1e-12L, "quaternion chain");
}
