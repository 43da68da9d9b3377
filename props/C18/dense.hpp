// The same statements on the library's special matrices and on dense long-double matrices; all numbers are small
// integers (or dyadic fractions), so results must be equal exactly.
#pragma once
#include "pbt.hpp"
#include <wave/geometry/geometry.hpp>
namespace sm {
using L = long double;
template <typename S, int R, int C> using Mat = Eigen::Matrix<S, R, C>;

/** what the two environments share: the variables */
template <typename S>
struct Vars {
    Mat<S, 3, 1> a, b, v, w;
    Mat<S, 1, 3> r;
    Mat<S, 3, 3> m, n;
    Eigen::Matrix<S, 3, 3, Eigen::RowMajor> o;
    Mat<S, 3, 4> P;
    Mat<S, 4, 3> Q;
    Mat<S, 4, 4> U;
    Mat<S, 6, 6> J;
    Mat<S, Eigen::Dynamic, Eigen::Dynamic> d, t;
    Mat<S, Eigen::Dynamic, 1> dv;
    S raw[9];
};
/** f(name, x, y): every variable of two environments */
template <typename A, typename B, typename Fn> void each(A &x, B &y, Fn f) {
    f("a", x.a, y.a); f("b", x.b, y.b); f("v", x.v, y.v); f("w", x.w, y.w); f("r", x.r, y.r); f("m", x.m, y.m); f("n", x.n, y.n); f("o", x.o, y.o);
    f("P", x.P, y.P); f("Q", x.Q, y.Q); f("U", x.U, y.U); f("J", x.J, y.J); f("d", x.d, y.d); f("t", x.t, y.t); f("dv", x.dv, y.dv);
}

/** the library's objects */
template <typename S>
struct Lib : Vars<S> {
    using Sc = S;
    template <typename X> static auto cr(X &&x) { return wave::crossMatrix(std::forward<X>(x)); }
    template <typename X> static auto vee(const X &x) { return wave::uncrossMatrix(x); }
    wave::IdentityMatrix<S, 3> I;
    wave::IdentityMatrix<S, 4> I4;
    wave::IdentityMatrix<S, 6> I6;
    // objects made once, used later
    Mat<S, 3, 1> ka, kb;
    wave::CrossMatrix<Mat<S, 3, 1>> K;
    decltype(-std::declval<const wave::CrossMatrix<Mat<S, 3, 1>> &>()) N;
    Lib(const Vars<S> &x) : Vars<S>(x), ka(x.a), kb(x.b), K(wave::crossMatrix(ka)), N(-wave::crossMatrix(kb)) {}
};
/** dense matrices */
struct Dense : Vars<L> {
    using Sc = L;
    template <typename X> static Mat<L, 3, 3> cr(const X &e) {
        const Mat<L, 3, 1> x = e;
        Mat<L, 3, 3> c;
        c << 0, -x(2), x(1), x(2), 0, -x(0), -x(1), x(0), 0;
        return c;
    }
    template <typename X> static Mat<L, 3, 1> vee(const X &e) { const Mat<L, 3, 3> x = e; return {x(2, 1), x(0, 2), x(1, 0)}; }
    Mat<L, 3, 3> I = Mat<L, 3, 3>::Identity();
    Mat<L, 4, 4> I4 = Mat<L, 4, 4>::Identity();
    Mat<L, 6, 6> I6 = Mat<L, 6, 6>::Identity();
    Mat<L, 3, 1> ka, kb;
    Mat<L, 3, 3> K, N;
    Dense(const Vars<L> &x) : Vars<L>(x), ka(x.a), kb(x.b), K(cr(x.a)), N(-cr(x.b)) {}
};

template <typename S> struct Statement { const char *text; void (*lib)(Lib<S> &); void (*dense)(Dense &); };
template <typename S> std::vector<Statement<S>> &statements() { static std::vector<Statement<S>> s; return s; }

inline int small(pbt::Source &s) { return (int) s.below(4) == 0 ? 0 : s.range(-9, 9); }
template <typename M, typename D> void fresh(pbt::Source &s, M &x, D &y) {
    for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j) { const int k = small(s); x(i, j) = (typename M::Scalar) k; y(i, j) = k; }
}
template <typename M, typename D> void same(const char *name, const M &x, const D &y, const std::string &after) {
    if (x.rows() != y.rows() || x.cols() != y.cols()) pbt::fail(name, " is ", x.rows(), "x", x.cols(), " instead of ", y.rows(), "x", y.cols(), after);
    for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j)
        if (!((L) x(i, j) == y(i, j))) pbt::fail(name, "(", i, ",", j, ") is ", x(i, j), " and ", y(i, j), " with dense matrices", after);
}
template <typename S> void history(pbt::Source &s) {
    Vars<S> x; Vars<L> y;
    const int nd = s.range(1, 5), nt = s.range(1, 5);
    x.d.resize(3, nd); y.d.resize(3, nd); x.t.resize(nt, 3); y.t.resize(nt, 3); x.dv.resize(3); y.dv.resize(3);
    each(x, y, [&](const char *, auto &u, auto &v) { fresh(s, u, v); });
    Lib<S> lib(x); Dense dense(y);
    auto &all = statements<S>();
    const int n = s.range(1, 12);
    std::string done;
    s.nontrivial();
    for (int i = 0; i < n; ++i) {
        switch (s.below(12)) {
            case 0: fresh(s, lib.ka, dense.ka); done += " | ka = new"; break;
            case 1: fresh(s, lib.kb, dense.kb); done += " | kb = new"; break;
            default: {
                const Statement<S> &st = all[s.below(all.size())];
                done += std::string(" | ") + st.text;
                st.lib(lib); st.dense(dense);
            }
        }
        each(lib, dense, [&](const char *name, auto &u, auto &v) {
            same(name, u, v, " after" + done);
            for (int r = 0; r < v.rows(); ++r) for (int c = 0; c < v.cols(); ++c)
                if (std::fabs(v(r, c)) > (std::is_same<S, float>::value ? 12 : 1000) || v(r, c) != std::round(v(r, c))) { const int k = small(s); u(r, c) = (S) k; v(r, c) = k; }
        });
        if (lib.K != dense.K.template cast<S>() || lib.N != dense.N.template cast<S>()) pbt::fail("a kept matrix changed after", done);
    }
    s.note([&](std::ostream &o) { o << done.substr(3); });
}
}  // namespace sm
