#include "common.hpp"
using Mf = wave::MatrixRotation<Eigen::Matrix3f>;
using Qf = wave::QuaternionRotation<Eigen::Quaternionf>;
using Rf = wave::RelativeRotation<Eigen::Vector3f>;
using Xf = wave::Twist<Eigen::Matrix<float, 6, 1>>;
using TMf = wave::MatrixRigidTransform<Eigen::Matrix4f>;
FACET("float so3", 1) {
    Eigen::Vector3f w = wide_rotvec(s).cast<float>();
    const Rf v{w};
    s.note([&](auto &o) { o << val(v); });
    const F th = ref::norm3(val(v).v);
    const auto want = ref::exp(val(v));
    rot_close(val(exp(v).eval()).R, want.R, th, 1e-6L, "exp(v)", 1e-37L);
    Eigen::Matrix3f R = rotmat(s).cast<float>();
    const Mf m{R};
    const Qf q{m};
    for (auto l : {val(log(m).eval()).v, val(log(q).eval()).v}) {
        REQUIRE(ref::norm3(l) <= ref::PI + 1e-6L, "angle exceeds pi");
        REQUIRE(ref::maxabs(ref::expSO3(l) - val(m).R) <= 3e-6L, "exp(log(R)) off by ", (double) ref::maxabs(ref::expSO3(l) - val(m).R));
        const auto wl = ref::logSO3(val(m).R); const F wt = ref::norm3(wl);
        if (wt < 3.0L) REQUIRE(ref::maxabs(l - wl) <= 5e-6L * std::min<F>(1, wt) + 1e-37L, "log got ", l, " want ", wl);
    }
}
FACET("float se3", 1) {
    Eigen::Vector3f w = wide_rotvec(s).cast<float>(), u = vec(s, 100).cast<float>();
    const Xf x{w, u};
    s.note([&](auto &o) { o << val(x); });
    const F th = ref::norm3(val(x).v), un = ref::norm3(val(x).u);
    const auto want = ref::exp(val(x));
    const auto T = exp(x).eval();
    rot_close(val(T).R, want.R, th, 3e-6L, "exp(x)", 1e-37L);
    REQUIRE(ref::maxabs(val(T).v - want.v) <= 5e-6L * un * (1 + th) + 1e-37L, "translation of exp(x) off by ", (double) ref::maxabs(val(T).v - want.v));
    const auto l = val(log(T).eval());
    const auto e = ref::exp(l);
    REQUIRE(ref::maxabs(e.R - val(T).R) <= 6e-6L * (1 + th), "exp(log)");
    REQUIRE(ref::maxabs(e.v - val(T).v) <= 1e-5L * (un + 1e-25L) * (1 + th), "exp(log) translation off by ", (double) ref::maxabs(e.v - val(T).v));
}
