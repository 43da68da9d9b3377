#include "common.hpp"
using Mf = wave::MatrixRotation<Eigen::Matrix3f>;
using Qf = wave::QuaternionRotation<Eigen::Quaternionf>;
using Af = wave::AngleAxisRotation<Eigen::AngleAxisf>;
using Tf_ = wave::Translation<Eigen::Vector3f>;
constexpr F FT = 2e-6L;
static Mf mf(Source &s) { Eigen::Matrix3f m = rotmat(s).cast<float>(); return Mf{m}; }
static Qf qf(Source &s) { Eigen::Quaternionf q = quat(s).cast<float>(); return Qf{q}; }
static Af af(Source &s) { double a = angle(s, ANY); Eigen::Vector3f x = axis(s).cast<float>(); return Af{Eigen::AngleAxisf((float) a, x.normalized())}; }
FACET("float", 3) {
    const Mf m = mf(s); const Qf q = qf(s); const Af a = af(s);
    Eigen::Vector3f tv = vec(s, 100).cast<float>();
    const Tf_ t{tv};
    mark(s, val(m)); mark(s, val(q));
    s.note([&](auto &o) { o << val(m) << val(q) << val(a) << val(t); });
    auto ck = [&](const auto &x, const ref::Val &w, const char *n) {
        F sc = 1 + ref::mag(w);
        if (!(invalid(x) <= 1e-5L)) pbt::fail(n, " invalid");
        close(val(x), w, FT * sc, n);
    };
    ck((m * q).eval(), ref::mul(val(m), val(q)), "m*q");
    ck((q * a).eval(), ref::mul(val(q), val(a)), "q*a");
    ck((q * q).eval(), ref::mul(val(q), val(q)), "q*q");
    ck((inverse(a) * m).eval(), ref::mul(ref::inv(val(a)), val(m)), "inverse(a)*m");
    ck((q * t).eval(), ref::mul(val(q), val(t)), "q*t");
    ck((m * t).eval(), ref::mul(val(m), val(t)), "m*t");
    ck((a * t).eval(), ref::mul(val(a), val(t)), "a*t");
    ck(inverse(q).eval(), ref::inv(val(q)), "inverse(q)");
    ck(Mf{q}, val(q), "M(q)");
    ck(Qf{m}, val(m), "Q(m)");
    ck(Af{m}, val(m), "A(m)");
}
