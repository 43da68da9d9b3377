// The same element held in different ways. `Base` values are drawn once; `hold<Tag>(base)` builds
// a holder whose get() is a leaf in the representation named by the tag.
#pragma once
#include "prog.hpp"
namespace reps {
using ref::F;
struct BaseR { Eigen::Quaterniond q; };
struct BaseT { Eigen::Quaterniond q; Eigen::Vector3d t; };
struct BaseV { Eigen::Vector3d v; };
struct BaseX { Eigen::Matrix<double, 6, 1> v; };
struct BaseS { double v; };
struct A;   // the frame used by all framed leaves

inline Eigen::Matrix3d matrix(const Eigen::Quaterniond &q) {
    ref::M3 m = gen::mq(q);
    Eigen::Matrix3d o;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o(i, j) = (double) m(i, j);
    return o;
}
inline Eigen::AngleAxisd angleAxis(const Eigen::Quaterniond &q, double turns, bool flip) {
    ref::V3 v{{q.x(), q.y(), q.z()}};
    F n = ref::norm3(v);
    F a = 2 * std::atan2(n, (F) q.w());
    if (n == 0) v = {{1, 0, 0}}, n = 1, a = q.w() < 0 ? 2 * ref::PI : 0;
    Eigen::Vector3d ax((double) (v[0] / n), (double) (v[1] / n), (double) (v[2] / n));
    a += 2 * ref::PI * turns;
    return Eigen::AngleAxisd{(double) (flip ? -a : a), flip ? Eigen::Vector3d(-ax) : ax};
}
inline Eigen::Matrix4d matrix4(const BaseT &b) {
    Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
    m.topLeftCorner<3, 3>() = matrix(b.q);
    m.topRightCorner<3, 1>() = b.t;
    return m;
}
template <typename L> struct Own {
    L leaf;
    explicit Own(L l) : leaf(std::move(l)) {}
    const L &get() const { return leaf; }
};
// ---- rotations
struct RM : Own<wave::RotationMd> { RM(const BaseR &b) : Own(wave::RotationMd{matrix(b.q)}) {} };
struct RQ : Own<wave::RotationQd> { RQ(const BaseR &b) : Own(wave::RotationQd{b.q}) {} };
struct RN : Own<wave::RotationQd> { RN(const BaseR &b) : Own(wave::RotationQd{Eigen::Quaterniond{-b.q.coeffs()}}) {} };
struct RA : Own<wave::RotationAd> { RA(const BaseR &b) : Own(wave::RotationAd{angleAxis(b.q, 0, false)}) {} };
struct RB : Own<wave::RotationAd> { RB(const BaseR &b) : Own(wave::RotationAd{angleAxis(b.q, -1, false)}) {} };
struct RF : Own<wave::RotationAd> { RF(const BaseR &b) : Own(wave::RotationAd{angleAxis(b.q, 1, true)}) {} };
struct RMm { Eigen::Matrix3d m; using L = wave::MatrixRotation<Eigen::Map<Eigen::Matrix3d>>; L leaf;
    RMm(const BaseR &b) : m(matrix(b.q)), leaf{Eigen::Map<Eigen::Matrix3d>{m.data()}} {} RMm(const RMm &) = delete; const L &get() const { return leaf; } };
struct RQm { Eigen::Quaterniond q; using L = wave::QuaternionRotation<Eigen::Map<Eigen::Quaterniond>>; L leaf;
    RQm(const BaseR &b) : q(b.q), leaf{Eigen::Map<Eigen::Quaterniond>{q.coeffs().data()}} {} RQm(const RQm &) = delete; const L &get() const { return leaf; } };
struct RMf : Own<wave::Framed<wave::RotationMd, A, A>> { RMf(const BaseR &b) : Own(wave::Framed<wave::RotationMd, A, A>{matrix(b.q)}) {} };
struct RQf : Own<wave::Framed<wave::RotationQd, A, A>> { RQf(const BaseR &b) : Own(wave::Framed<wave::RotationQd, A, A>{b.q}) {} };
struct RAf : Own<wave::Framed<wave::RotationAd, A, A>> { RAf(const BaseR &b) : Own(wave::Framed<wave::RotationAd, A, A>{angleAxis(b.q, 0, true)}) {} };
// ---- transforms
inline wave::RigidTransformQd compact(const Eigen::Quaterniond &q, const Eigen::Vector3d &t) {
    wave::RigidTransformQd r; r.rotationBlock().value() = q; r.translationBlock().value() = t; return r;
}
struct TM : Own<wave::RigidTransformMd> { TM(const BaseT &b) : Own(wave::RigidTransformMd{matrix(b.q), b.t}) {} };
struct TQ : Own<wave::RigidTransformQd> { TQ(const BaseT &b) : Own(compact(b.q, b.t)) {} };
struct TN : Own<wave::RigidTransformQd> { TN(const BaseT &b) : Own(compact(Eigen::Quaterniond{-b.q.coeffs()}, b.t)) {} };
struct TMf : Own<wave::Framed<wave::RigidTransformMd, A, A>> { TMf(const BaseT &b) : Own(wave::Framed<wave::RigidTransformMd, A, A>{wave::RigidTransformMd{matrix(b.q), b.t}.value()}) {} };
struct TQf : Own<wave::Framed<wave::RigidTransformQd, A, A>> { TQf(const BaseT &b) : Own(wave::Framed<wave::RigidTransformQd, A, A>{b.q, b.t}) {} };
struct TMm { Eigen::Matrix4d m; using L = wave::MatrixRigidTransform<Eigen::Map<Eigen::Matrix4d>>; L leaf;
    TMm(const BaseT &b) : m(matrix4(b)), leaf{Eigen::Map<Eigen::Matrix4d>{m.data()}} {} TMm(const TMm &) = delete; const L &get() const { return leaf; } };
// ---- vectors
template <typename L_> struct Vown : Own<L_> { Vown(const BaseV &b) : Own<L_>(L_{b.v}) {} };
using VP = Vown<wave::Translationd>; using VW = Vown<wave::RelativeRotationd>; using VO = Vown<wave::Pointd>;
template <template <typename> class T> struct Vmap { Eigen::Vector3d m; using L = T<Eigen::Map<Eigen::Vector3d>>; L leaf;
    Vmap(const BaseV &b) : m(b.v), leaf{Eigen::Map<Eigen::Vector3d>{m.data()}} {} Vmap(const Vmap &) = delete; const L &get() const { return leaf; } };
using VPm = Vmap<wave::Translation>; using VWm = Vmap<wave::RelativeRotation>; using VOm = Vmap<wave::Point>;
using VPf = Vown<wave::Framed<wave::Translationd, A, A, A>>; using VWf = Vown<wave::Framed<wave::RelativeRotationd, A, A, A>>; using VOf = Vown<wave::Framed<wave::Pointd, A, A>>;
struct XX : Own<wave::Twistd> { XX(const BaseX &b) : Own(wave::Twistd{b.v}) {} };
struct XXf : Own<wave::Framed<wave::Twistd, A, A, A>> { XXf(const BaseX &b) : Own(wave::Framed<wave::Twistd, A, A, A>{b.v}) {} };
struct XXm { Eigen::Matrix<double, 6, 1> m; using M = Eigen::Map<Eigen::Matrix<double, 6, 1>>; using L = wave::Twist<M>; L leaf;
    XXm(const BaseX &b) : m(b.v), leaf{M{m.data()}} {} XXm(const XXm &) = delete; const L &get() const { return leaf; } };
struct SS : Own<wave::Scalar<double>> { SS(const BaseS &b) : Own(wave::Scalar<double>{b.v}) {} };

// ---- base values
inline gen::Opt opt(pbt::Source &s) { gen::Opt o; o.ang = gen::TAME; o.tmax = 10; o.smax = 3; o.nonzero = s.below(8) != 0; if (rp::wide()) { o.ang = gen::PRINCIPAL; o.tmax = 1000; o.smax = 100; } return o; }
inline Eigen::Quaterniond unit(pbt::Source &s) { return gen::quat(s, rp::wide() ? gen::PRINCIPAL : gen::TAME); }
template <typename B> B base(pbt::Source &s);
template <> inline BaseR base<BaseR>(pbt::Source &s) { return {unit(s)}; }
template <> inline BaseT base<BaseT>(pbt::Source &s) { auto q = unit(s); return {q, gen::tvec(s, opt(s))}; }
template <> inline BaseV base<BaseV>(pbt::Source &s) { return {gen::tvec(s, opt(s))}; }
template <> inline BaseX base<BaseX>(pbt::Source &s) { return {gen::Leaf<wave::Twistd>::make(s, opt(s)).value()}; }
template <> inline BaseS base<BaseS>(pbt::Source &s) { return {gen::nonzero(s, rp::wide() ? 100 : 3)}; }
inline BaseV rotvec(pbt::Source &s) { return {gen::Leaf<wave::RelativeRotationd>::make(s, opt(s)).value()}; }
inline BaseS unitScalar(pbt::Source &s) { return {s.uniform(-0.9, 0.9)}; }

/** value and Jacobians of one way of holding the operands */
struct Result { ref::Val value; std::vector<ref::Mat> J; };
template <typename E, typename... Ls> Result result(const E &e, const Ls &... ls) {
    return {gen::val(e.eval()), rp::each(e, ls...)};
}
inline void same(const Result &got, const Result &want, F vtol, const std::vector<F> &jtol, const std::string &how) {
    gen::close(got.value, want.value, vtol, "value with operands held as " + how);
    for (size_t i = 0; i < want.J.size(); ++i)
        gen::close(got.J[i], want.J[i], jtol[i], "Jacobian w.r.t. leaf " + std::to_string(i) + " with operands held as " + how);
}
}  // namespace reps
