#include "common.hpp"
FACET("long chain", 1) {
    int n = s.range(1, 20);
    Opt o; o.tmax = 10;
    TM m = leaf<TM>(s, o, "m");
    TQ q{m};
    ref::Val r = val(m);
    F scale = 1 + ref::norm3(r.v);
    for (int i = 0; i < n; ++i) {
        const auto b = leaf<TQ>(s, o, "b");
        scale += ref::norm3(val(b).v);
        if (s.coin()) { r = ref::mul(r, val(b)); m = m * b; q = q * b; }
        else { r = ref::mul(ref::inv(val(b)), r); m = inverse(b) * m; q = inverse(b) * q; }
    }
    s.nontrivial();
    check(m, r, 3e-13L * scale * (n + 1), "matrix chain");
    check(q, r, 3e-13L * scale * (n + 1), "quaternion chain");
}
using TMf = wave::MatrixRigidTransform<Eigen::Matrix4f>;
using TQf = wave::CompactRigidTransform<Eigen::Quaternionf, Eigen::Vector3f>;
using Vf = wave::Translation<Eigen::Vector3f>;
FACET("float", 1) {
    Eigen::Matrix3f R = rotmat(s).cast<float>(); Eigen::Vector3f t1 = vec(s, 100).cast<float>(), t2 = vec(s, 100).cast<float>(), t3 = vec(s, 100).cast<float>();
    Eigen::Quaternionf qq = quat(s).cast<float>();
    const TMf a{R, t1};
    TQf b; b.rotationBlock().value() = qq; b.translationBlock().value() = t2;
    const Vf t{t3};
    s.note([&](auto &o) { o << val(a) << val(b) << val(t); });
    mark(s, val(a));
    const F e = 2e-6L * (3 + t1.norm() + t2.norm() + t3.norm());
    auto ck = [&](const auto &x, const ref::Val &w, const char *n) {
        if (!(invalid(x) <= 1e-5L)) pbt::fail(n, " invalid");
        close(val(x), w, e, n);
    };
    ck((a * b).eval(), ref::mul(val(a), val(b)), "a*b");
    ck((b * b).eval(), ref::mul(val(b), val(b)), "b*b");
    ck(inverse(a).eval(), ref::inv(val(a)), "inverse(a)");
    ck(inverse(b).eval(), ref::inv(val(b)), "inverse(b)");
    ck((a * t).eval(), ref::mul(val(a), val(t)), "a*t");
    ck((b * t).eval(), ref::mul(val(b), val(t)), "b*t");
    ck(TQf{a}, val(a), "Q(a)");
    ck(TMf{b}, val(b), "M(b)");
}
