// isApprox and isZero against distances computed in long double
#pragma once
#include "reps.hpp"
namespace ap {
using namespace reps;
using ref::Val;
struct B;
// ---- more holders: other frames, single precision
struct RQb : Own<wave::Framed<wave::RotationQd, A, B>> { RQb(const BaseR &b) : Own(wave::Framed<wave::RotationQd, A, B>{b.q}) {} };
struct TQb : Own<wave::Framed<wave::RigidTransformQd, B, A>> { TQb(const BaseT &b) : Own(wave::Framed<wave::RigidTransformQd, B, A>{b.q, b.t}) {} };
template <typename I> using MR = wave::MatrixRotation<I>;
struct RMs : Own<wave::MatrixRotation<Eigen::Matrix3f>> { RMs(const BaseR &b) : Own(wave::MatrixRotation<Eigen::Matrix3f>{matrix(b.q).cast<float>()}) {} };
struct RQs : Own<wave::QuaternionRotation<Eigen::Quaternionf>> { RQs(const BaseR &b) : Own(wave::QuaternionRotation<Eigen::Quaternionf>{b.q.cast<float>()}) {} };
struct RAs : Own<wave::AngleAxisRotation<Eigen::AngleAxisf>> { RAs(const BaseR &b) : Own(wave::AngleAxisRotation<Eigen::AngleAxisf>{angleAxis(b.q, 0, false).cast<float>()}) {} };
struct TMs : Own<wave::MatrixRigidTransform<Eigen::Matrix4f>> { TMs(const BaseT &b) : Own(wave::MatrixRigidTransform<Eigen::Matrix4f>{matrix4(b).cast<float>()}) {} };
struct TQs : Own<wave::CompactRigidTransform<Eigen::Quaternionf, Eigen::Vector3f>> {
    TQs(const BaseT &b) : Own(wave::CompactRigidTransform<Eigen::Quaternionf, Eigen::Vector3f>{b.q.cast<float>(), b.t.cast<float>().eval()}) {} };
template <template <typename> class T> struct Vs : Own<T<Eigen::Vector3f>> { Vs(const BaseV &b) : Own<T<Eigen::Vector3f>>(T<Eigen::Vector3f>{b.v.cast<float>()}) {} };
struct XXs : Own<wave::Twist<Eigen::Matrix<float, 6, 1>>> { XXs(const BaseX &b) : Own(wave::Twist<Eigen::Matrix<float, 6, 1>>{b.v.cast<float>()}) {} };
struct SSs : Own<wave::Scalar<float>> { SSs(const BaseS &b) : Own(wave::Scalar<float>{(float) b.v}) {} };

// ---- values of bases, and displaced bases
using D6 = std::array<F, 6>;
inline ref::V3 a3(const D6 &d, int o = 0) { return {{d[o], d[o + 1], d[o + 2]}}; }
inline Eigen::Quaterniond toq(const ref::M3 &R) { F q[4]; ref::toQuat(R, q); return Eigen::Quaterniond((double) q[3], (double) q[0], (double) q[1], (double) q[2]); }
inline BaseR moved(const BaseR &b, const D6 &d) { return {toq(ref::expSO3(a3(d)) * gen::mq(b.q))}; }
inline BaseT moved(const BaseT &b, const D6 &d) {
    const Val v = ref::mul(ref::exp(ref::TW(a3(d), a3(d, 3))), ref::Tf(gen::mq(b.q), gen::v3(b.t)));
    return {toq(v.R), Eigen::Vector3d((double) v.v[0], (double) v.v[1], (double) v.v[2])};
}
inline BaseV moved(const BaseV &b, const D6 &d) { BaseV r = b; for (int i = 0; i < 3; ++i) r.v[i] += (double) d[i]; return r; }
inline BaseX moved(const BaseX &b, const D6 &d) { BaseX r = b; for (int i = 0; i < 6; ++i) r.v[i] += (double) d[i]; return r; }
inline BaseS moved(const BaseS &b, const D6 &d) { return {b.v + (double) d[0]}; }

// ---- a wider choice of values
inline gen::Opt wide(pbt::Source &s) { gen::Opt o; o.ang = gen::PRINCIPAL; o.tmax = s.coin() ? 1 : 1000; o.smax = 1e3; return o; }
inline void draw(pbt::Source &s, BaseR &b) { b = {gen::quat(s, gen::PRINCIPAL)}; }
inline void draw(pbt::Source &s, BaseT &b) { b.q = gen::quat(s, gen::PRINCIPAL); b.t = gen::tvec(s, wide(s)); }
inline void draw(pbt::Source &s, BaseV &b) { b = {gen::tvec(s, wide(s))}; }
inline void draw(pbt::Source &s, BaseX &b) { b = {gen::Leaf<wave::Twistd>::make(s, wide(s)).value()}; }
inline void draw(pbt::Source &s, BaseS &b) { b = {gen::number(s, 1e3)}; }
template <typename T> constexpr bool group() { return std::is_same<T, BaseR>::value || std::is_same<T, BaseT>::value; }
inline F sizeOf(const BaseR &) { return 1; }
inline F sizeOf(const BaseT &) { return 1; }
inline F sizeOf(const BaseV &b) { return b.v.norm(); }
inline F sizeOf(const BaseX &b) { return b.v.norm(); }
inline F sizeOf(const BaseS &b) { return std::fabs(b.v); }

/** largest coordinate and norm of the difference, and what the precision is relative to */
struct Distance { F most, norm, unit, noise; };
template <typename Base> Distance distance(const Val &x, const Val &y, bool single) {
    Distance r{0, 0, 1, 0};
    for (F d : ref::diff(x, y)) { r.most = std::max(r.most, std::fabs(d)); r.norm += d * d; }
    r.norm = std::sqrt(r.norm);
    const F eps = single ? 1e-6L : 3e-15L;
    if (group<Base>()) r.noise = eps * (1 + 3 * std::max(ref::mag(x), ref::mag(y)));
    else { r.unit = std::min(std::sqrt(ref::dotf(x, x)), std::sqrt(ref::dotf(y, y))); r.noise = eps * std::max(ref::mag(x), ref::mag(y)); r.most = r.norm; }
    return r;
}
/** 1: must be true, 0: must be false, -1: too close to call */
inline int verdict(const Distance &d, F prec) {
    const F t = prec * d.unit;
    if (d.norm + d.noise < 0.97L * t || (d.norm == 0 && d.noise == 0)) return 1;
    if (d.most - d.noise > 1.03L * t) return 0;
    return -1;
}
template <typename T> T precision(pbt::Source &s, bool &dflt) {
    const bool single = std::is_same<T, float>::value;
    dflt = s.below(4) == 0;
    if (dflt) return single ? 1e-5f : 1e-12;
    switch (s.below(3)) {
        case 0: return (T) std::pow(10.0, -(double) s.range(1, single ? 4 : 9));
        case 1: return (T) 0.01;
        default: return (T) std::pow(10.0, -(single ? 4.0 : 10.0) * s.unit() - 0.5);
    }
}
template <typename X, typename Y, typename T> bool ask(const X &x, const Y &y, T prec, bool dflt) { return dflt ? x.isApprox(y) : x.isApprox(y, prec); }
template <typename X, typename Y, typename T>
void judge(const X &x, const Y &y, T prec, bool dflt, int want, const char *how) {
    const bool got = ask(x, y, prec, dflt);
    if (want >= 0 && got != (want == 1)) pbt::fail("isApprox ", how, " is ", got, " at precision ", (double) prec, dflt ? " (default)" : "");
}
template <typename Base, typename HX, typename HY> void pair(pbt::Source &s) {
    using LX = std::decay_t<decltype(std::declval<HX>().get())>;
    using T = wave::internal::scalar_t<LX>;
    const bool single = std::is_same<T, float>::value;
    bool dflt;
    const T prec = precision<T>(s, dflt);
    Base b;
    draw(s, b);
    D6 d{};
    F n = 0;
    if (s.coin()) for (auto &x : d) { x = s.uniform(-1, 1); }
    else d[s.below(std::is_same<Base, BaseS>::value ? 1 : group<Base>() || std::is_same<Base, BaseV>::value ? 3 : 6)] = s.coin() ? 1 : -1;
    if (std::is_same<Base, BaseT>::value && s.coin()) { for (int i = 0; i < 3; ++i) d[i + 3] += d[i], d[i] = s.coin() ? 0 : d[i]; }
    for (int i = 0; i < (std::is_same<Base, BaseS>::value ? 1 : std::is_same<Base, BaseX>::value || std::is_same<Base, BaseT>::value ? 6 : 3); ++i) n += d[i] * d[i];
    n = std::sqrt(n);
    if (n == 0) throw pbt::Discard{};
    static const std::vector<double> factor{0, 0.001, 0.1, 0.5, 0.9, 0.95, 1.06, 1.1, 1.5, 2, 5, 20, 1000};
    const double f = s.pick(factor);
    const F step = s.below(10) == 0 ? (F) gen::magnitude(s, 3) : (F) prec * f * sizeOf(b);
    for (auto &x : d) x *= step / n;
    const HX hx{b};
    const HY hy{moved(b, d)};
    const auto &x = hx.get();
    const auto &y = hy.get();
    const Val vx = gen::val(x), vy = gen::val(y);
    s.note([&](auto &os) { os << "x=" << vx << " y=" << vy << " prec=" << (double) prec; });
    const Distance dist = distance<Base>(vx, vy, single);
    const int want = verdict(dist, prec);
    if (want < 0) { s.label("too close to call"); return; }
    s.nontrivial();
    s.label(want ? "close" : "apart");
    judge(x, y, prec, dflt, want, "of two elements");
    judge(y, x, prec, dflt, want, "of two elements, exchanged");
    // the same through expressions
    if constexpr (group<Base>()) {
        judge(inverse(inverse(x)), y, prec, dflt, want, "of an expression and an element");
        judge(x, inverse(inverse(y)), prec, dflt, want, "of an element and an expression");
    } else if constexpr (std::is_base_of<wave::VectorBase<LX>, LX>::value) {
        judge(-(-x), y, prec, dflt, want, "of an expression and an element");
        judge(x, -(-y), prec, dflt, want, "of an element and an expression");
        judge(-x, -y, prec, dflt, want, "of two expressions");
    }
    // reflexive
    const Distance none = distance<Base>(vx, vx, single);
    const int same = verdict({0, 0, none.unit, group<Base>() ? none.noise : 0}, prec);
    if (same >= 0) judge(x, x, prec, dflt, same, "of an element and itself");
}
template <typename Base, typename H> void zero(pbt::Source &s) {
    using L = std::decay_t<decltype(std::declval<H>().get())>;
    using T = wave::internal::scalar_t<L>;
    bool dflt;
    const T prec = precision<T>(s, dflt);
    Base b;
    draw(s, b);
    b = moved(b, {});
    D6 z{};
    static const std::vector<double> factor{0, 0.01, 0.3, 0.9, 1.1, 3, 1000, 1e9};
    const double f = s.pick(factor);
    const int n = std::is_same<Base, BaseS>::value ? 1 : std::is_same<Base, BaseX>::value ? 6 : 3;
    F m = 0;
    for (int i = 0; i < n; ++i) z[i] = s.below(3) ? 0 : s.uniform(-1, 1);
    const int k = (int) s.below(n);
    z[k] = s.coin() ? 1 : -1;
    for (int i = 0; i < n; ++i) z[i] *= prec * f, m += z[i] * z[i];
    Base o = b;
    if constexpr (std::is_same<Base, BaseS>::value) o.v = 0; else o.v.setZero();
    const H h{moved(o, z)};
    const auto &x = h.get();
    const Val v = gen::val(x);
    F most = ref::mag(v), norm = std::sqrt(ref::dotf(v, v));
    s.note([&](auto &os) { os << "x=" << v << " prec=" << (double) prec; });
    if (!(norm < 0.97L * prec) && !(most > 1.03L * prec)) { s.label("too close to call"); return; }
    const bool want = norm < 0.97L * prec;
    s.nontrivial();
    s.label(want ? "zero" : "not zero");
    if ((dflt ? x.isZero() : x.isZero(prec)) != want) pbt::fail("isZero is ", !want, " at precision ", (double) prec, dflt ? " (default)" : "");
    if constexpr (std::is_base_of<wave::VectorBase<L>, L>::value) {
        auto e = -x;
        if ((dflt ? e.isZero() : e.isZero(prec)) != want) pbt::fail("isZero of an expression is ", !want, " at precision ", (double) prec, dflt ? " (default)" : "");
    }
}
}  // namespace ap
#define AP_PAIR(Base, X, Y) FACET("isApprox " #X " " #Y, 1) { ap::pair<ap::Base, ap::X, ap::Y>(s); }
#define AP_ZERO(Base, X) FACET("isZero " #X, 1) { ap::zero<ap::Base, ap::X>(s); }
