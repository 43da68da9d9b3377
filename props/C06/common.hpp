#pragma once
#include "gen.hpp"
using namespace gen;
using pbt::Source;
using wave::RotationMd; using wave::RotationQd; using wave::RotationAd; using wave::Translationd; using wave::Pointd;
using wave::RelativeRotationd; using wave::Twistd;
using TM = wave::RigidTransformMd; using TQ = wave::RigidTransformQd; using Sd = wave::Scalar<double>;
using ref::Val; using ref::Mat; using VL = std::vector<Val>;

inline Mat mm(const Mat &a, const Mat &b) {
    Mat r(a.r, b.c);
    for (int i = 0; i < a.r; ++i) for (int j = 0; j < b.c; ++j) for (int k = 0; k < a.c; ++k) r(i, j) += a(i, k) * b(k, j);
    return r;
}
inline Mat eye(int n) { Mat r(n, n); for (int i = 0; i < n; ++i) r(i, i) = 1; return r; }
inline Mat ncol(const Mat &m, F k) { Mat r = m; for (auto &x : r.a) x *= k; return r; }
inline F nrmv(const Val &v) { return std::sqrt(ref::dotf(v, v)); }
/** sum of the sizes of the operands */
inline F scl(std::initializer_list<Val> l) { F t = 1; for (auto &v : l) t += std::fabs(v.s) + ref::norm3(v.v) + ref::norm3(v.u); return t; }
/** the library's exp Jacobian switches to a series below a threshold; rounding of its closed form above it */
inline F expTol(const Val &v) {
    const F th = ref::norm3(v.v);
    return 4e-13L + (th > 1e-9L ? 1e-15L / th : 0);
}
template <typename L, typename... Fr> void noteNonPlain(Source &, const wave::Framed<L, Fr...> &) {}

/** J of one-operand expression e, obtained the two public ways */
template <typename E, typename X>
Mat jac1(const E &e, const X &x, const char *what) {
    const Mat J = mat(e.jacobian(x));
    const auto t = e.evalWithJacobians(x);
    close(mat(std::get<1>(t)), J, 0, std::string(what) + ": evalWithJacobians(x) vs jacobian(x)");
    close(val(std::get<0>(t)), val(e.eval()), 0, std::string(what) + ": value of evalWithJacobians(x) vs eval()");
    return J;
}
/** an operation of one operand against the numerical derivative of the reference */
template <typename X, typename Op, typename RefOp>
void op1(Source &s, const Opt &o, const char *name, Op op, RefOp refop, std::function<F(const Val &)> tol) {
    const X x = leaf<X>(s, o, "x");
    const Val vx = val(x);
    s.nontrivial();
    const Mat want = ref::numJac([&](const VL &l) { return refop(l[0]); }, {vx}, 0);
    close(jac1(op(x), x, name), want, tol(vx), std::string("Jacobian of ") + name);
}
template <typename X, typename Y, typename Op, typename RefOp>
void op2(Source &s, const Opt &o, const char *name, Op op, RefOp refop, std::function<F(const Val &, const Val &)> tol) {
    const X x = leaf<X>(s, o, "x");
    const Y y = leaf<Y>(s, o, "y");
    const Val vx = val(x), vy = val(y);
    s.nontrivial();
    const auto e = op(x, y);
    ref::Fn f = [&](const VL &l) { return refop(l[0], l[1]); };
    const F t = tol(vx, vy);
    const Mat Jx = ref::numJac(f, {vx, vy}, 0), Jy = ref::numJac(f, {vx, vy}, 1);
    const std::string n = std::string("Jacobian of ") + name;
    close(jac1(e, x, name), Jx, t, n + " w.r.t. the left operand");
    close(jac1(e, y, name), Jy, t, n + " w.r.t. the right operand");
    const auto r = e.evalWithJacobians(y, x);
    close(mat(std::get<1>(r)), Jy, t, n + " w.r.t. (right, left), first");
    close(mat(std::get<2>(r)), Jx, t, n + " w.r.t. (right, left), second");
}
/** log: J * Jexp(log x) = identity, well-conditioned up to and including angle pi */
template <typename X>
void logj(Source &s) {
    Opt o; o.tmax = 100;
    const X x = leaf<X>(s, o, "x");
    const Val vx = val(x);
    s.nontrivial();
    const auto e = log(x);
    const Mat J = jac1(e, x, "log");
    const Val v = val(e.eval());
    const Mat Je = ref::numJac([](const VL &l) { return ref::exp(l[0]); }, {v}, 0);
    const F k = scl({vx}) * scl({v});
    close(mm(Je, J), eye(J.r), 1e-12L * k * (1 + Je.maxabs()), "Jacobian of log times Jacobian of exp");
}
template <typename X, typename Y>
void boxminus(Source &s) {
    Opt o; o.tmax = 100;
    const X x = leaf<X>(s, o, "x");
    Y y = leaf<Y>(s, o, "y");
    if (s.below(4) == 1) { y = Y{x}; s.label("pair:equal"); }
    const Val vx = val(x), vy = val(y);
    s.nontrivial();
    const auto e = x - y;
    const Mat Jx = jac1(e, x, "x - y"), Jy = jac1(e, y, "x - y");
    const Val v = val(e.eval());
    const Mat Je = ref::numJac([](const VL &l) { return ref::exp(l[0]); }, {v}, 0);
    // d(x * inverse(y)) with respect to y: minus the adjoint of x * inverse(y)
    const Mat A = ref::numJac([](const VL &l) { return ref::mul(l[0], ref::inv(l[1])); }, {vx, vy}, 1);
    const F k = scl({vx, vy}) * scl({v});
    close(mm(Je, Jx), eye(Jx.r), 1e-12L * k * (1 + Je.maxabs()), "Jacobian of x - y w.r.t. x");
    close(mm(Je, Jy), A, 1e-12L * k * (1 + Je.maxabs()) * (1 + A.maxabs()), "Jacobian of x - y w.r.t. y");
}
#define REG(name, ...) static pbt::Register PBT_CAT(r, __LINE__){name, 1, [](Source &s) { __VA_ARGS__; }};
#define LAM1(e) [](const auto &x) { return e; }
#define LAM2(e) [](const auto &x, const auto &y) { return e; }
