#include "common.hpp"
FACET("exp so3", 3) {
    const RelativeRotationd v{wide_rotvec(s)};
    s.note([&](auto &o) { o << "v=" << val(v); });
    const auto w = ref::exp(val(v));
    const F th = ref::norm3(val(v).v);
    const auto q = exp(v).eval();
    REQUIRE(invalid(q) <= 1e-13L, "exp is not a valid rotation");
    rot_close(val(q).R, w.R, th, 2e-15L, "exp(v)");
    const RotationMd m{exp(v)};
    rot_close(val(m).R, w.R, th, 4e-15L, "RotationMd{exp(v)}");
    const RotationQd qq{exp(v)};
    rot_close(val(qq).R, w.R, th, 4e-15L, "RotationQd{exp(v)}");
    check(RotationMd{exp(v) * exp(-v)}, ref::Ro(ref::I3()), 1e-13L * (1 + th), "exp(v)*exp(-v)");
    const double k = s.uniform(-2, 2);
    const RelativeRotationd kv{k * v.value()};
    const RelativeRotationd sum{v.value() + kv.value()};
    check(RotationMd{exp(v) * exp(kv)}, val(RotationMd{exp(sum)}), 1e-13L * (1 + 4 * th), "exp(v)*exp(kv) vs exp(v+kv)");
    check(RotationMd{inverse(exp(v))}, ref::inv(w), 1e-13L * (1 + th), "inverse(exp(v))");
}
FACET("exp se3", 3) {
    Eigen::Vector3d om = wide_rotvec(s);
    Eigen::Vector3d u = vec(s);
    const Twistd x{om, u};
    s.note([&](auto &o) { o << "x=" << val(x); });
    const auto w = ref::exp(val(x));
    const F th = ref::norm3(val(x).v), un = ref::norm3(val(x).u);
    const auto T = exp(x).eval();
    REQUIRE(invalid(T) <= 1e-12L * (1 + th), "exp is not a valid rigid transform");
    rot_close(val(T).R, w.R, th, 4e-15L, "rotation of exp(x)");
    F d = ref::maxabs(val(T).v - w.v);
    REQUIRE(d <= 1e-14L * un * (1 + th), "translation of exp(x) got ", val(T).v, " want ", w.v, " error ", (double) d);
    // the part across the axis, which is O(theta): V u - u
    const auto uu = val(x).u;
    F d2 = ref::maxabs((val(T).v - uu) - (w.v - uu));
    REQUIRE(d2 <= 4e-15L * un * (1 + th), "translation of exp(x) off by ", (double) d2);
    check(TQ{exp(x)}, w, 1e-13L * (1 + un) * (1 + th), "quaternion form of exp(x)");
    const auto I = (exp(x) * exp(-x)).eval();
    check(I, ref::Tf(ref::I3(), ref::V3{}), 1e-13L * (1 + un) * (1 + th), "exp(x)*exp(-x)");
}
FACET("exp then log", 2) {
    double a; do { a = s.below(3) ? wide_angle(s) : 3 + s.unit() * 0.14; } while (false);
    a = std::fabs(a);
    if (a > M_PI - 1e-4) a = std::fmod(a, M_PI - 1e-4);
    const Eigen::Vector3d om = a * axis(s);
    if (a != 0) s.nontrivial();
    const RelativeRotationd v{om};
    const Eigen::Vector3d u = vec(s);
    const Twistd x{om, u};
    s.note([&](auto &o) { o << "x=" << val(x); });
    const F th = ref::norm3(val(v).v), un = ref::norm3(val(x).u);
    check(log(exp(v)).eval(), val(v), 4e-15L * std::min<F>(1, 10 * th) + 2e-15L * th + 1e-300L, "log(exp(v))");
    // matrix round trip: conditioning of the rotation vector near pi is ~1
    const auto lx = log(exp(x)).eval();
    close(ref::rot(val(lx)), val(v), 2e-14L * std::min<F>(1, 10 * th) + 1e-300L, "rotation of log(exp(x))");
    F d = ref::maxabs(val(lx).u - val(x).u);
    REQUIRE(d <= 2e-13L * un, "translation of log(exp(x)) off by ", (double) d);
}
