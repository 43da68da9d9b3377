#include "part.hpp"
using namespace pt; using namespace wave;
namespace {
template <typename L, typename R, typename V> L generic(const Eigen::RotationBase<R, 3> &r, const Eigen::MatrixBase<V> &t) { return L{r, t}; }
template <typename L, typename R, typename V> L genericM(const Eigen::MatrixBase<R> &r, const Eigen::MatrixBase<V> &t) { return L{r, t}; }
template <typename L> void both(pbt::Source &s) {
    const Eigen::Quaterniond q = gen::quat(s, gen::TAME); const Eigen::Matrix3d m = gen::rotmat(s, gen::TAME); const Eigen::Vector3d t = gen::vec(s, 10);
    const Eigen::AngleAxisd aa{gen::angle(s, gen::TAME), gen::axis(s)};
    s.note([&](auto &os) { os << "q=" << ref::Ro(gen::mq(q)) << " m=" << ref::Ro(gen::m3(m)) << " t=" << ref::V(gen::v3(t)); });
    const Val vt = ref::V(gen::v3(t));
    const auto want = [&](const Val &r, const Val &v) { return ref::Tf(r.R, v.v); };
    const Val Q = ref::Ro(gen::mq(q)), M = ref::Ro(gen::m3(m));
    const F e = 1e-13L * (1 + ref::mag(vt));
    gen::check(L{m, t}, want(M, vt), e, "made from an Eigen matrix and vector");
    gen::check(L{q, t}, want(Q, vt), e, "made from an Eigen quaternion and vector");
    gen::check(L{aa, t}, want(ref::Ro(gen::ma(aa)), vt), e, "made from an Eigen angle-axis and vector");
    gen::check(L{m * m.transpose() * m, 2 * t}, want(rp::mul(rp::mul(M, rp::inv(M)), M), rp::add(vt, vt)), 10 * e, "made from Eigen expressions");
    gen::check(L{m, t + t}, want(M, rp::add(vt, vt)), e, "made from a matrix and an Eigen expression");
    gen::check(L{q.inverse(), t}, want(rp::inv(Q), vt), e, "made from an inverse quaternion and a vector");
    gen::check(generic<L>(q, t), want(Q, vt), e, "made from an Eigen rotation and vector seen through their base classes");
    gen::check(generic<L>(aa, t + t), want(ref::Ro(gen::ma(aa)), rp::add(vt, vt)), e, "made from an Eigen angle-axis and an expression seen through their base classes");
    gen::check(generic<L>(Eigen::Map<const Eigen::Quaterniond>{q.coeffs().data()}, t), want(Q, vt), e, "made from a map of a quaternion seen through its base class");
    gen::check(genericM<L>(m.transpose(), t), want(rp::inv(M), vt), 10 * e, "made from a transposed matrix seen through its base class");
    s.nontrivial();
}
template <typename L> void exprs(pbt::Source &s) {
    const RotationQd q = leaf<RotationQd>(s, "q"); const RotationMd m = leaf<RotationMd>(s, "m"); const RotationAd a = leaf<RotationAd>(s, "a");
    const Translationd p = leaf<Translationd>(s, "p"), p2 = leaf<Translationd>(s, "p2"); const RigidTransformMd U = leaf<RigidTransformMd>(s, "U"); const RigidTransformQd T = leaf<RigidTransformQd>(s, "T");
    const RelativeRotationd w = leaf<RelativeRotationd>(s, "w");
    const Val Q = gen::val(q), M = gen::val(m), P = gen::val(p), P2 = gen::val(p2), u = gen::val(U), t = gen::val(T);
    const auto want = [&](const Val &r, const Val &v) { return ref::Tf(r.R, v.v); };
    const F e = 1e-12L * (1 + ref::mag(P) + ref::mag(P2) + ref::mag(u) + ref::mag(t));
    gen::check(L{q, p}, want(Q, P), e, "made from a quaternion rotation and a translation");
    gen::check(L{m, p}, want(M, P), e, "made from a matrix rotation and a translation");
    gen::check(L{a, p}, want(gen::val(a), P), e, "made from an angle-axis rotation and a translation");
    gen::check(L{q * m, p + p2}, want(rp::mul(Q, M), rp::add(P, P2)), e, "made from a product and a sum");
    gen::check(L{inverse(m), q * p}, want(rp::inv(M), rp::mul(Q, P)), e, "made from an inverse and a rotated vector");
    gen::check(L{exp(w), -p}, want(rp::exp(gen::val(w)), rp::neg(P)), e, "made from an exponential and a negated vector");
    gen::check(L{U.rotation(), T.translation()}, want(ref::rot(u), ref::trans(t)), e, "made from parts of two transforms");
    gen::check(L{inverse(T).rotation(), inverse(U).translation()}, want(ref::rot(rp::inv(t)), ref::trans(rp::inv(u))), 10 * e, "made from parts of inverses");
    gen::check(L{RotationMd::Identity(), p}, want(rp::mul(Q, rp::inv(Q)), P), e, "made from Identity and a translation");
    s.nontrivial();
}
}
FACET("constructors of matrix transforms", 1) { both<RigidTransformMd>(s); }
FACET("constructors of row-major transforms", 1) { both<MatrixRigidTransform<M4R>>(s); }
FACET("constructors of compact transforms", 1) { both<RigidTransformQd>(s); }
FACET("constructors of framed matrix transforms", 1) { both<Framed<RigidTransformMd, A, B>>(s); }
FACET("constructors of framed compact transforms", 1) { both<Framed<RigidTransformQd, A, B>>(s); }
FACET("matrix transforms from expressions", 1) { exprs<RigidTransformMd>(s); exprs<MatrixRigidTransform<M4R>>(s); }
FACET("compact transforms from expressions", 1) { exprs<RigidTransformQd>(s); }
FACET("transforms from 4x4 matrices", 1) {
    const RigidTransformMd U = leaf<RigidTransformMd>(s, "U");
    const Eigen::Matrix4d m = U.value(); const M4R r = m;
    const Val u = gen::val(U);
    gen::check(RigidTransformMd{m}, u, 0, "made from a 4x4 matrix"); gen::check(RigidTransformMd{r}, u, 0, "made from a row-major 4x4 matrix"); gen::check(MatrixRigidTransform<M4R>{m}, u, 0, "row-major made from a 4x4 matrix");
    gen::check(Framed<RigidTransformMd, A, B>{m}, u, 0, "framed, made from a 4x4 matrix");
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (RigidTransformMd{r}.value()(i, j) != m(i, j)) pbt::fail("entry ", i, ",", j, " of a transform made from a 4x4 matrix");
    RigidTransformMd d;
    for (int j = 0; j < 4; ++j) if (d.value()(3, j) != (j == 3)) pbt::fail("last row of a default-constructed transform");
    s.nontrivial();
}
FACET("constructors of twists and vectors", 1) {
    const Eigen::Vector3d a = gen::vec(s, 10), b = gen::vec(s, 10); V6 v; v << a, b;
    const Val want = ref::TW(gen::v3(a), gen::v3(b));
    gen::check(Twistd{v}, want, 0, "twist from a 6-vector"); gen::check(Twistd{a, b}, want, 0, "twist from two vectors"); gen::check(Framed<Twistd, A, A, B>{v}, want, 0, "framed twist from a 6-vector");
    gen::check(Framed<Twistd, A, A, B>{a, b}, want, 0, "framed twist from two vectors"); gen::check(Twistd{2 * a, a + b}, ref::TW(gen::v3(Eigen::Vector3d(2 * a)), gen::v3(Eigen::Vector3d(a + b))), 0, "twist from Eigen expressions");
    gen::check(Translationd{a.x(), a.y(), a.z()}, ref::V(gen::v3(a)), 0, "translation from numbers"); gen::check(Translationd{a}, ref::V(gen::v3(a)), 0, "translation from a vector");
    gen::check(RelativeRotationd{a.x(), a.y(), a.z()}, ref::V(gen::v3(a)), 0, "relative rotation from numbers"); gen::check(Pointd{a.x(), a.y(), a.z()}, ref::V(gen::v3(a)), 0, "point from numbers");
    gen::check(Pointd{a - b}, ref::V(gen::v3(Eigen::Vector3d(a - b))), 0, "point from an Eigen expression");
    gen::check(Framed<Translationd, A, A, B>{a.x(), a.y(), a.z()}, ref::V(gen::v3(a)), 0, "framed translation from numbers"); gen::check(Framed<Pointd, A, B>{a.x(), a.y(), a.z()}, ref::V(gen::v3(a)), 0, "framed point from numbers");
    if (a != b) s.nontrivial();
}
