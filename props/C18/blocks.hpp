// Block matrices, diagonal block matrices and matrix maps against dense models
#include "dense.hpp"
#include "../C15/compound.hpp"
#pragma once
#include <map>
namespace {
using sm::L; using sm::small;
struct A; struct B; struct C;
template <typename T> struct Blocks;
template <> struct Blocks<wave::Translationd> { static std::vector<int> get() { return {3}; } };
template <> struct Blocks<wave::RotationMd> { static std::vector<int> get() { return {3}; } };
template <> struct Blocks<wave::RotationQd> { static std::vector<int> get() { return {3}; } };
template <> struct Blocks<wave::Pointd> { static std::vector<int> get() { return {3}; } };
template <> struct Blocks<wave::Twistd> { static std::vector<int> get() { return {3, 3}; } };
template <> struct Blocks<wave::RigidTransformMd> { static std::vector<int> get() { return {3, 3}; } };
template <> struct Blocks<wave::RigidTransformQd> { static std::vector<int> get() { return {3, 3}; } };
template <> struct Blocks<wave::Scalar<double>> { static std::vector<int> get() { return {1}; } };
template <> struct Blocks<double> { static std::vector<int> get() { return {1}; } };
template <typename... Es> std::vector<int> dofs() { return {(int) wave::internal::traits<Es>::TangentSize...}; }
template <typename... Es> struct Blocks<cmp::VecN<Es...>> { static std::vector<int> get() { return dofs<Es...>(); } };
template <typename T, typename... Fr> struct Blocks<wave::Framed<T, Fr...>> : Blocks<T> {};
template <typename T> constexpr int numBlocks() {
    using TT = typename wave::internal::traits<T>::TangentBlocks;
    return wave::internal::tangent_sizes<TT>::size();
}
inline int offset(const std::vector<int> &b, int i) { int o = 0; for (int k = 0; k < i; ++k) o += b[k]; return o; }
inline int total(const std::vector<int> &b) { return offset(b, (int) b.size()); }
using Dyn = Eigen::MatrixXd;
inline Dyn ints(pbt::Source &s, int r, int c) { Dyn m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = small(s); return m; }
template <typename M> void eq(const M &got, const Dyn &want, const std::string &what) {
    if (got.rows() != want.rows() || got.cols() != want.cols()) pbt::fail(what, ": ", got.rows(), "x", got.cols(), " instead of ", want.rows(), "x", want.cols());
    for (int i = 0; i < want.rows(); ++i) for (int j = 0; j < want.cols(); ++j) if (!(got(i, j) == want(i, j))) pbt::fail(what, ": (", i, ",", j, ") is ", got(i, j), " instead of ", want(i, j));
}
/** f(integral_constant i) for the chosen i of N */
template <int N, typename Fn> void choose(int i, Fn f) {
    if constexpr (N > 0) { if (i == N - 1) f(std::integral_constant<int, N - 1>{}); else choose<N - 1>(i, f); }
}
template <typename X, typename Y> void blocks(pbt::Source &s) {
    using BM = wave::BlockMatrix<X, Y>;
    const std::vector<int> rb = Blocks<X>::get(), cb = Blocks<Y>::get();
    const int R = total(rb), Cn = total(cb);
    constexpr int NX = numBlocks<X>(), NY = numBlocks<Y>();
    if (NX != (int) rb.size() || NY != (int) cb.size()) pbt::fail("number of blocks");
    Dyn d = ints(s, R, Cn);
    using Base = typename BM::Base;
    BM m{Base(d)};
    eq(m, d, "constructed");
    const int n = s.range(1, 14);
    if (n > 1) s.nontrivial();
    std::string done;
    for (int k = 0; k < n; ++k) {
        const int i = (int) s.below(NX), j = (int) s.below(NY);
        const int r0 = offset(rb, i), c0 = offset(cb, j), h = rb[i], w = cb[j];
        const BM &c = m;
        const int op = (int) s.below(16);
        done += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ")";
        choose<NX>(i, [&](auto I) { choose<NY>(j, [&](auto J) {
            constexpr int i_ = decltype(I)::value, j_ = decltype(J)::value;
            switch (op) {
                case 0: { const Dyn x = ints(s, h, w); m.template blockWrt<i_, j_>() = x; d.block(r0, c0, h, w) = x; break; }
                case 1: { const Dyn x = ints(s, R, w); m.template colsWrt<j_>() = x; d.middleCols(c0, w) = x; break; }
                case 2: { const Dyn x = ints(s, h, Cn); m.template rowsWrt<i_>() = x; d.middleRows(r0, h) = x; break; }
                case 3: eq(c.template blockWrt<i_, j_>().eval(), d.block(r0, c0, h, w), "const blockWrt"); eq(m.template blockWrt<i_, j_>().eval(), d.block(r0, c0, h, w), "blockWrt"); break;
                case 4: eq(c.template colsWrt<j_>().eval(), d.middleCols(c0, w), "const colsWrt"); eq(m.template colsWrt<j_>().eval(), d.middleCols(c0, w), "colsWrt"); break;
                case 5: eq(c.template rowsWrt<i_>().eval(), d.middleRows(r0, h), "const rowsWrt"); eq(m.template rowsWrt<i_>().eval(), d.middleRows(r0, h), "rowsWrt"); break;
                case 6: { const Dyn x = ints(s, R, Cn); m = Base(x); d = x; break; }
                case 7: { const Dyn x = ints(s, R, Cn); m += Base(x); d += x; break; }
                case 8: m *= 2; d *= 2; break;
                case 9: { const Dyn x = ints(s, R, R); m = Eigen::Matrix<double, BM::RowsAtCompileTime, BM::RowsAtCompileTime>(x) * m; d = Dyn(x * d); break; }
                case 10: { const Dyn x = ints(s, Cn, Cn); m *= Eigen::Matrix<double, BM::ColsAtCompileTime, BM::ColsAtCompileTime>(x); d = Dyn(d * x); break; }
                case 11: {
                    const BM o(m); BM t; t = m + o; eq(t, d + d, "sum"); eq((o - t).eval(), -d, "difference"); eq((m.transpose() * o).eval(), d.transpose() * d, "transpose times itself");
                    eq((m * o.transpose()).eval(), d * d.transpose(), "times transpose");
                    wave::BlockMatrix<Y, X> u{m.transpose()}; eq(u, d.transpose(), "transposed block matrix");
                    eq(u.template blockWrt<j_, i_>().eval(), d.block(r0, c0, h, w).transpose(), "block of the transpose"); break;
                }
                case 12: m.template blockWrt<i_, j_>().setZero(); d.block(r0, c0, h, w).setZero(); break;
                case 13: m.template blockWrt<i_, j_>().setIdentity(); d.block(r0, c0, h, w).setIdentity(); break;
                case 14: {
                    if (rb[0] != h || cb[0] != w) return;
                    const Dyn x = d.block(0, 0, h, w);
                    if constexpr (std::is_same<decltype(m.template blockWrt<i_, j_>()), decltype(m.template blockWrt<0, 0>())>::value) { m.template blockWrt<i_, j_>() = m.template blockWrt<0, 0>(); d.block(r0, c0, h, w) = x; }
                    break;
                }
                default:
                    if (h == 3 && w == 3) {
                        const Dyn x = ints(s, 3, 1);
                        Dyn hat = Dyn::Zero(3, 3); hat(0, 1) = -x(2); hat(0, 2) = x(1); hat(1, 0) = x(2); hat(1, 2) = -x(0); hat(2, 0) = -x(1); hat(2, 1) = x(0);
                        if constexpr (decltype(m.template blockWrt<i_, j_>())::RowsAtCompileTime == 3 && decltype(m.template blockWrt<i_, j_>())::ColsAtCompileTime == 3) {
                            if (k & 1) { m.template blockWrt<i_, j_>() = wave::crossMatrix(Eigen::Vector3d(x)); d.block(r0, c0, 3, 3) = hat; }
                            else { m.template blockWrt<i_, j_>() = wave::crossMatrix(Eigen::Vector3d(x)) * m.template blockWrt<i_, j_>(); d.block(r0, c0, 3, 3) = Dyn(hat * d.block(r0, c0, 3, 3)); }
                        }
                    }
            }
        }); });
        eq(m, d, "after" + done);
        if (d.cwiseAbs().maxCoeff() > 1e6) { d = ints(s, R, Cn); m = Base(d); }
    }
    s.note([&](std::ostream &o) { o << "blocks " << R << "x" << Cn << done; });
}
}  // namespace
