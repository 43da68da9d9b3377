// Generators of leaf values in many numeric regimes, plus conversion of library values to the
// reference model.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/geometry.hpp"
#include "wave/geometry/estimation.hpp"

namespace gen {
using pbt::Source;
using ref::F;

// ---- plain numbers ---------------------------------------------------------------------
/** a magnitude in [0, inf): zero, tiny, unit-ish, large */
inline double magnitude(Source &s, double max = 1e3) {
    switch (s.below(6)) {
        case 0: return 1.0;
        case 1: return 0.0;
        case 2: return std::pow(10.0, -s.range(1, 12)) * (1 + s.unit());
        case 3: case 4: return 10 * s.unit();
        default: return max * s.unit();
    }
}
inline double number(Source &s, double max = 1e3) {
    double m = magnitude(s, max);
    return s.coin() ? -m : m;
}
/** bounded away from zero */
inline double nonzero(Source &s, double max = 100) {
    double m = s.below(3) == 0 ? 1.0 : 0.05 + s.unit() * (s.coin() ? 3 : max);
    if (max >= 100 && s.below(8) == 7) { m = std::pow(10.0, s.uniform(-6, 6)); s.label("number:far"); }
    return s.coin() ? -m : m;
}
inline Eigen::Vector3d axis(Source &s) {
    Eigen::Vector3d v;
    switch (s.below(4)) {
        case 0: v = Eigen::Vector3d::Unit((int) s.below(3)); break;
        case 1: v = -Eigen::Vector3d::Unit((int) s.below(3)); break;
        case 2: {   // nearly a coordinate axis
            v = Eigen::Vector3d::Unit((int) s.below(3));
            double e = std::pow(10.0, -s.range(2, 10));
            for (int i = 0; i < 3; ++i) v[i] += e * s.uniform(-1, 1);
            break;
        }
        default:
            for (int i = 0; i < 3; ++i) v[i] = s.uniform(-1, 1);
            if (v.norm() < 1e-2) v[0] += 1;
    }
    return v.normalized();
}
enum AngleMode { PRINCIPAL, /* [0, pi] including 0 and pi */ INTERIOR, /* [0, pi - 0.02] */
                 ANY /* any real angle */, TAME /* 0 or at least 1e-3, up to pi */ };
inline double angle(Source &s, AngleMode m) {
    if (m == TAME) {
        switch (s.below(8)) {
            case 6: s.label("angle:zero"); return 0;
            case 7: s.label("angle:small"); return std::pow(10.0, -s.range(1, 3)) * (1 + s.unit());
            default: return 0.1 + s.unit() * 3.04;
        }
    }
    switch (s.below(m == INTERIOR ? 6 : m == PRINCIPAL ? 8 : 10)) {
        case 0: case 1: s.label("angle:moderate"); return 0.1 + s.unit() * 2.9;
        case 2: s.label("angle:zero"); return 0;
        case 3: s.label("angle:small"); return std::pow(10.0, -s.range(1, 12)) * (1 + s.unit());
        case 4: {   // around the places where implementations switch to a series
            s.label("angle:threshold");
            static const std::vector<double> th{1.49e-8, 1.22e-4, 2.2e-16, 1e-6, 1e-3, 1e-2};
            return s.pick(th) * s.uniform(0.7, 1.4);
        }
        case 5: s.label("angle:large"); return 2.0 + s.unit() * 1.12;
        case 6: s.label("angle:near pi"); return M_PI - std::pow(10.0, -s.range(1, 12)) * (1 + s.unit());
        case 7: s.label("angle:pi"); return M_PI;
        case 8: s.label("angle:beyond pi"); return M_PI + s.unit() * 10;
        default: s.label("angle:negative"); return -s.unit() * 7;
    }
}
inline Eigen::Vector3d vec(Source &s, double max = 1e3) {
    Eigen::Vector3d v;
    if (max >= 100 && s.below(10) == 9) {   // beyond the usual magnitudes, coordinates of either sign
        s.label("vec:far");
        return axis(s) * std::pow(10.0, s.uniform(3, 8));
    }
    switch (s.below(5)) {
        case 0: v = Eigen::Vector3d{1, 2, 3}; break;
        case 1: v = Eigen::Vector3d::Zero(); s.label("vec:zero"); break;
        case 2: v = axis(s) * magnitude(s, max); break;
        default: for (int i = 0; i < 3; ++i) v[i] = number(s, max);
    }
    return v;
}
inline Eigen::Vector3d nonzero_vec(Source &s, double max = 100) {
    return axis(s) * std::fabs(nonzero(s, max));
}

// ---- conversion to the reference model ------------------------------------------------
template <typename D>
ref::V3 v3(const Eigen::MatrixBase<D> &v) { return {{(F) v(0), (F) v(1), (F) v(2)}}; }
template <typename D>
ref::M3 m3(const Eigen::MatrixBase<D> &m) { ref::M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = (F) m(i, j); return r; }
template <typename D>
ref::M3 mq(const Eigen::QuaternionBase<D> &q) { return ref::fromQuat(q.x(), q.y(), q.z(), q.w()); }
template <typename T>
ref::M3 ma(const Eigen::AngleAxis<T> &a) {
    ref::V3 ax = v3(a.axis());
    return ref::expSO3(((F) a.angle() / ref::norm3(ax)) * ax);
}
template <typename I> ref::Val val(const wave::MatrixRotation<I> &r) { return ref::Ro(m3(r.value())); }
template <typename I> ref::Val val(const wave::QuaternionRotation<I> &r) { return ref::Ro(mq(r.value())); }
template <typename I> ref::Val val(const wave::AngleAxisRotation<I> &r) { return ref::Ro(ma(r.value())); }
template <typename I> ref::Val val(const wave::MatrixRigidTransform<I> &r) {
    return ref::Tf(m3(r.value().template topLeftCorner<3, 3>()), v3(r.value().template topRightCorner<3, 1>()));
}
template <typename Q, typename V> ref::Val val(const wave::CompactRigidTransform<Q, V> &r) {
    return ref::Tf(mq(r.rotationBlock().value()), v3(r.translationBlock().value()));
}
template <typename I> ref::Val val(const wave::Translation<I> &t) { return ref::V(v3(t.value())); }
template <typename I> ref::Val val(const wave::RelativeRotation<I> &t) { return ref::V(v3(t.value())); }
template <typename I> ref::Val val(const wave::Point<I> &t) { return ref::V(v3(t.value())); }
template <typename I> ref::Val val(const wave::Twist<I> &t) { return ref::TW(v3(t.value().template head<3>()), v3(t.value().template tail<3>())); }
template <typename S_> ref::Val val(const wave::Scalar<S_> &x) { return ref::S((F) x.value()); }
inline ref::Val val(double x) { return ref::S(x); }
inline ref::Val val(float x) { return ref::S(x); }
template <typename L> ref::Val val(const wave::Zero<L> &) { return val(L{wave::internal::traits<L>::ImplType::Zero()}); }
// strip the frames with a cast
template <typename L, typename A, typename B> auto unframed(const wave::Framed<L, A, B> &f) {
    return wave::frame_cast<wave::NoFrame, wave::NoFrame>(f).eval();
}
template <typename L, typename A, typename B, typename C> auto unframed(const wave::Framed<L, A, B, C> &f) {
    return wave::frame_cast<wave::NoFrame, wave::NoFrame, wave::NoFrame>(f).eval();
}
template <typename L, typename... Fr> ref::Val val(const wave::Framed<L, Fr...> &f) { return val(wave::internal::plain_output_t<L>{unframed(f)}); }

/** how far a returned element is from being a valid member of its manifold */
template <typename T> F invalid(const T &);
template <typename I> F invalid(const wave::MatrixRotation<I> &r) {
    auto m = m3(r.value());
    return std::max(ref::maxabs(m * ref::T(m) - ref::I3()), std::fabs(ref::det3(m) - 1));
}
template <typename I> F invalid(const wave::QuaternionRotation<I> &r) {
    auto q = r.value();
    F x = q.x(), y = q.y(), z = q.z(), w = q.w();
    return std::fabs(x * x + y * y + z * z + w * w - 1);
}
template <typename I> F invalid(const wave::AngleAxisRotation<I> &r) { return std::fabs(ref::norm3(v3(r.value().axis())) - 1); }
template <typename I> F invalid(const wave::MatrixRigidTransform<I> &r) {
    auto m = m3(r.value().template topLeftCorner<3, 3>());
    F bad = std::max(ref::maxabs(m * ref::T(m) - ref::I3()), std::fabs(ref::det3(m) - 1));
    for (int j = 0; j < 4; ++j) if (r.value()(3, j) != (j == 3 ? 1 : 0)) bad = 1e9;
    return bad;
}
template <typename Q, typename V> F invalid(const wave::CompactRigidTransform<Q, V> &r) { return invalid(r.rotationBlock()); }
template <typename L, typename... Fr> F invalid(const wave::Framed<L, Fr...> &f) { return invalid(wave::internal::plain_output_t<L>{unframed(f)}); }
template <typename T> F invalid(const T &) { return 0; }

// ---- leaves --------------------------------------------------------------------------------
inline Eigen::Quaterniond quat(Source &s, AngleMode m = PRINCIPAL) {
    double a = angle(s, m);
    Eigen::Vector3d ax = axis(s);
    F h = (F) a / 2, sn = std::sin(h), cs = std::cos(h);
    ref::V3 u = v3(ax); F n = ref::norm3(u);
    Eigen::Quaterniond q((double) cs, (double) (sn * u[0] / n), (double) (sn * u[1] / n), (double) (sn * u[2] / n));
    if (s.coin()) { q.coeffs() = -q.coeffs(); s.label("quat:negated"); }
    return q;
}
inline Eigen::Matrix3d rotmat(Source &s, AngleMode m = PRINCIPAL) {
    double a = angle(s, m);
    Eigen::Vector3d ax = axis(s);
    ref::V3 u = v3(ax);
    ref::M3 R = ref::expSO3(((F) a / ref::norm3(u)) * u);
    Eigen::Matrix3d o;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o(i, j) = (double) R(i, j);
    return o;
}
inline Eigen::Vector3d rotvec(Source &s, AngleMode m = PRINCIPAL) { double a = angle(s, m); return a * axis(s); }

/** what leaf values a generator may produce */
struct Opt {
    AngleMode ang = PRINCIPAL;
    double tmax = 1e3;        // translations
    bool nonzero = false;     // vectors and scalars bounded away from zero
    double smax = 100;        // scalars
};
template <typename T> struct Leaf;
template <> struct Leaf<wave::RotationMd> { static wave::RotationMd make(Source &s, const Opt &o) { return wave::RotationMd{rotmat(s, o.ang)}; } };
template <> struct Leaf<wave::RotationQd> { static wave::RotationQd make(Source &s, const Opt &o) { return wave::RotationQd{quat(s, o.ang)}; } };
template <> struct Leaf<wave::RotationAd> {
    static wave::RotationAd make(Source &s, const Opt &o) {
        double a = angle(s, o.ang == PRINCIPAL ? ANY : o.ang);
        return wave::RotationAd{Eigen::AngleAxisd{a, axis(s)}};
    }
};
inline Eigen::Vector3d tvec(Source &s, const Opt &o) { return o.nonzero ? nonzero_vec(s, o.tmax) : vec(s, o.tmax); }
template <> struct Leaf<wave::RigidTransformMd> {
    static wave::RigidTransformMd make(Source &s, const Opt &o) { Eigen::Matrix3d R = rotmat(s, o.ang); return wave::RigidTransformMd{R, tvec(s, o)}; }
};
template <> struct Leaf<wave::RigidTransformQd> {
    static wave::RigidTransformQd make(Source &s, const Opt &o) {
        Eigen::Quaterniond q = quat(s, o.ang);
        wave::RigidTransformQd r;
        r.rotationBlock().value() = q;
        r.translationBlock().value() = tvec(s, o);
        return r;
    }
};
template <> struct Leaf<wave::Translationd> { static wave::Translationd make(Source &s, const Opt &o) { return wave::Translationd{tvec(s, o)}; } };
template <> struct Leaf<wave::Pointd> { static wave::Pointd make(Source &s, const Opt &o) { return wave::Pointd{tvec(s, o)}; } };
template <> struct Leaf<wave::RelativeRotationd> {
    static wave::RelativeRotationd make(Source &s, const Opt &o) {
        Eigen::Vector3d v = rotvec(s, o.ang);
        if (o.nonzero && v.norm() < 0.05) v = Eigen::Vector3d{0.1, 0.2, -0.3};
        return wave::RelativeRotationd{v};
    }
};
template <> struct Leaf<wave::Twistd> {
    static wave::Twistd make(Source &s, const Opt &o) {
        auto w = Leaf<wave::RelativeRotationd>::make(s, o);
        Eigen::Vector3d t = tvec(s, o);
        return wave::Twistd{w.value(), t};
    }
};
template <> struct Leaf<wave::Scalar<double>> { static wave::Scalar<double> make(Source &s, const Opt &o) { return wave::Scalar<double>{o.nonzero ? nonzero(s, o.smax) : number(s, o.smax)}; } };
template <> struct Leaf<double> { static double make(Source &s, const Opt &o) { return o.nonzero ? nonzero(s, o.smax) : number(s, o.smax); } };
template <typename L, typename... Fr> struct Leaf<wave::Framed<L, Fr...>> {
    static wave::Framed<L, Fr...> make(Source &s, const Opt &o) { return wave::Framed<L, Fr...>{Leaf<L>::make(s, o).value()}; }
};
/** Draws a leaf, notes it, returns it */
template <typename T>
T leaf(Source &s, const Opt &o = {}, const char *name = "") {
    T x = Leaf<T>::make(s, o);
    s.note([&](auto &os) { os << name << "=" << val(x); });
    return x;
}
template <typename D>
ref::Mat mat(const Eigen::MatrixBase<D> &m) {
    auto e = m.eval();
    ref::Mat r((int) e.rows(), (int) e.cols());
    for (int i = 0; i < r.r; ++i) for (int j = 0; j < r.c; ++j) r(i, j) = (F) e(i, j);
    return r;
}

// ---- comparisons ---------------------------------------------------------------------------
inline void close(const ref::Val &got, const ref::Val &want, F tol, const std::string &what) {
    if (got.k != want.k) pbt::fail(what, ": wrong kind of result");
    F d = ref::dist(got, want);
    if (!(d <= tol)) pbt::fail(what, ": got ", got, " want ", want, " error ", (double) d, " tolerance ", (double) tol);
}
inline void close(const ref::Mat &got, const ref::Mat &want, F tol, const std::string &what) {
    if (got.r != want.r || got.c != want.c) pbt::fail(what, ": wrong size");
    for (size_t i = 0; i < got.a.size(); ++i) {
        F d = std::fabs(got.a[i] - want.a[i]);
        if (!(d <= tol)) pbt::fail(what, ": got ", got, " want ", want, " error ", (double) d, " tolerance ", (double) tol);
    }
}
/** checks a returned library value against the reference, including manifold membership */
template <typename T>
void check(const T &got, const ref::Val &want, F tol, const std::string &what) {
    F bad = invalid(got);
    if (!(bad <= std::max<F>(tol, 1e-9L))) pbt::fail(what, ": the result is not a valid element: off by ", (double) bad);
    close(val(got), want, tol, what);
}
}  // namespace gen
