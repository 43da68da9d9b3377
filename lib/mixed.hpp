/** Expressions of library scalars and vectors with plain numbers of any arithmetic type. */
#pragma once
#include <limits>
#include "gen.hpp"
namespace mixed {
using F = long double;
struct FA; struct FB; struct FC;
template <typename Num> struct Draw { static Num get(pbt::Source &s) {
    if constexpr (std::is_same<Num, bool>::value) return s.coin();
    else if constexpr (std::is_floating_point<Num>::value) return Num((s.coin() ? 1 : -1) * s.uniform(0.2, 5));
    else {
        const int how = (int) s.below(8);
        if (how == 0) return std::numeric_limits<Num>::max();
        if (how == 1) return std::numeric_limits<Num>::min();
        if (how == 2) return Num(s.range(-100000, 100000));
        return Num(s.range(std::is_signed<Num>::value ? -9 : 0, 9));
    }
} };
template <typename T> const char *numName() {
    return std::is_same<T, int>() ? "int" : std::is_same<T, unsigned>() ? "unsigned" : std::is_same<T, short>() ? "short" : std::is_same<T, unsigned char>() ? "unsigned char" : std::is_same<T, long>() ? "long"
         : std::is_same<T, unsigned long>() ? "unsigned long" : std::is_same<T, bool>() ? "bool" : std::is_same<T, float>() ? "float" : "double";
}
inline void same(F got, F want, F tol, const char *what, const char *type, F x, F n) {
    if (!(std::fabs(got - want) <= tol)) pbt::fail(what, " with n of type ", type, ", x=", (double) x, ", n=", (double) n, ": got ", (double) got, " want ", (double) want);
}
template <typename X> X make(double v) { return X{(wave::internal::scalar_t<X>) v}; }
/** a library scalar x and a number n; what = values or derivatives */
template <typename X, typename Num, bool Derivatives> void scalars(pbt::Source &s) {
    using T = wave::internal::scalar_t<X>;
    const X x = make<X>((s.coin() ? 1 : -1) * s.uniform(0.2, 5));
    const Num n = Draw<Num>::get(s), m = (Num) s.range(1, std::is_same<Num, bool>::value ? 1 : 9);
    const F a = x.value(), b = n, c = m;
    const F eps = 8 * (std::is_same<T, float>() || std::is_same<Num, float>() ? (F) std::numeric_limits<float>::epsilon() : (F) std::numeric_limits<double>::epsilon());
    const char *ty = numName<Num>();
    s.note([&](std::ostream &o) { o << "x=" << (double) a << " n=" << (double) b << " (" << ty << ") m=" << (double) c; });
    const F sz = std::fabs(a) + std::fabs(b);
    const auto one = [&](const auto &e, F want, F slope, F tol, F slopeTol, const char *what) {
        if (!Derivatives) {
            same(e.eval().value(), want, eps * tol, what, ty, a, b);
            using Res = std::decay_t<decltype(e.eval())>;
            const Res r{e}; same(r.value(), want, eps * tol, what, ty, a, b);
        } else {
            same(e.jacobian(x)(0, 0), slope, eps * slopeTol, what, ty, a, b);
            const auto t = e.evalWithJacobians(x);
            same(std::get<0>(t).value(), want, eps * tol, what, ty, a, b);
            same(std::get<1>(t)(0, 0), slope, eps * slopeTol, what, ty, a, b);
        }
    };
    if constexpr (std::is_same<X, wave::Scalar<T>>()) {
        one(x + n, a + b, 1, sz, 1, "x + n"); one(n + x, a + b, 1, sz, 1, "n + x"); one(x - n, a - b, 1, sz, 1, "x - n"); one(n - x, b - a, -1, sz, 1, "n - x");
        one(x + Num(m), a + c, 1, sz + c, 1, "x + m (temporary)"); one(Num(m) - x, c - a, -1, sz + c, 1, "m - x (temporary)");
        one((n - x) * (x + m), (b - a) * (a + c), (b - a) - (a + c), sz * (std::fabs(a) + c), sz + std::fabs(a) + c, "(n - x) * (x + m)");
        one(m - (n - x), c - (b - a), 1, sz + c, 1, "m - (n - x)");
        one((m + x) - (x - n), c + b, 0, sz + c + std::fabs(a), 2, "(m + x) - (x - n)");
    }
    one(x * n, a * b, b, std::fabs(a * b), std::fabs(b), "x * n"); one(n * x, a * b, b, std::fabs(a * b), std::fabs(b), "n * x");
    one(n / x, b / a, -b / (a * a), std::fabs(b / a), std::fabs(b / (a * a)), "n / x");
    one(m / x, c / a, -c / (a * a), std::fabs(c / a), std::fabs(c / (a * a)), "m / x");
    one(x / m, a / c, 1 / c, std::fabs(a / c), 1 / c, "x / m"); one(x / Num(m), a / c, 1 / c, std::fabs(a / c), 1 / c, "x / m (temporary)");
    if (n != 0) one(x / n, a / b, 1 / b, std::fabs(a / b), std::fabs(1 / b), "x / n");
    one(m * (x / m), a, 1, std::fabs(a), 1, "m * (x / m)"); one((x * m) / m, a, 1, std::fabs(a), 1, "(x * m) / m");
    s.nontrivial();
}
template <typename X, typename Num, bool Derivatives> void vectors(pbt::Source &s) {
    X x; constexpr int D = wave::internal::eval_traits<X>::TangentSize;
    using T = wave::internal::scalar_t<X>;
    using V = Eigen::Matrix<F, D, 1>; using M = Eigen::Matrix<F, D, D>;
    for (int i = 0; i < D; ++i) x.value()(i) = (T) s.uniform(-5, 5);
    const V a = x.value().template cast<F>();
    const wave::Scalar<T> k{(T) ((s.coin() ? 1 : -1) * s.uniform(0.2, 5))};
    const Num n = Draw<Num>::get(s), m = (Num) s.range(1, std::is_same<Num, bool>::value ? 1 : 9);
    const F b = n, c = m, d = k.value();
    const F eps = 8 * (std::is_same<T, float>() || std::is_same<Num, float>() ? (F) std::numeric_limits<float>::epsilon() : (F) std::numeric_limits<double>::epsilon());
    const char *ty = numName<Num>();
    s.note([&](std::ostream &o) { o << "x=" << a.transpose().template cast<double>() << " n=" << (double) b << " (" << ty << ") m=" << (double) c << " k=" << (double) d; });
    const auto eq = [&](const auto &got, const auto &want, F tol, const char *what) {
        for (int i = 0; i < want.rows(); ++i) for (int j = 0; j < want.cols(); ++j) same(got(i, j), want(i, j), eps * tol, what, ty, a.norm(), b);
    };
    const auto one = [&](const auto &e, F f, const char *what) {      // e = f x
        if (!Derivatives) eq(e.eval().value(), V(f * a), std::fabs(f) * a.norm(), what);
        else {
            eq(e.jacobian(x), M(f * M::Identity()), std::fabs(f), what);
            const auto t = e.evalWithJacobians(x);
            eq(std::get<0>(t).value(), V(f * a), std::fabs(f) * a.norm(), what); eq(std::get<1>(t), M(f * M::Identity()), std::fabs(f), what);
        }
    };
    one(x * n, b, "x * n"); one(n * x, b, "n * x"); one(x / m, 1 / c, "x / m"); one((x * n) / m, b / c, "(x * n) / m"); one(n * -x, -b, "n * -x");
    one(x * Num(m), c, "x * m (temporary)"); one(Num(m) * x, c, "m * x (temporary)"); one(x / Num(m), 1 / c, "x / m (temporary)");
    if (n != 0) one(x / n, 1 / b, "x / n");
    one((m - k) * x, c - d, "(m - k) * x"); one(x * (k + m), d + c, "x * (k + m)"); one(x * (k / m), d / c, "x * (k / m)"); one((m / k) * x, c / d, "(m / k) * x");
    if (Derivatives) {
        eq(((m - k) * x).jacobian(k), V(-a), a.norm(), "(m - k) * x w.r.t. k"); eq((x * (k / m)).jacobian(k), V(a / c), a.norm() / c, "x * (k / m) w.r.t. k");
        eq((x * (m / k)).jacobian(k), V(-a * c / (d * d)), a.norm() * c / (d * d), "x * (m / k) w.r.t. k");
        if (std::fabs(c - d) > 0.1L) eq((x / (m - k)).jacobian(k), V(a / ((c - d) * (c - d))), a.norm() * (10 + c + std::fabs(d)) * (1 + c + std::fabs(d)) / ((c - d) * (c - d)) / std::fabs(c - d), "x / (m - k) w.r.t. k");
    }
    const F nn = a.norm();
    if (nn > 0.1L) {
        const auto e = x.norm() / m, g = m / x.norm();
        if (!Derivatives) { same(e.eval().value(), nn / c, eps * nn / c, "|x| / m", ty, nn, c); same((m - x.norm()).eval().value(), c - nn, eps * (c + nn), "m - |x|", ty, nn, c); same(g.eval().value(), c / nn, eps * c / nn, "m / |x|", ty, nn, c); }
        else {
            eq(e.jacobian(x), Eigen::Matrix<F, 1, D>(a.transpose() / nn / c), 1 / c, "|x| / m"); eq((m - x.norm()).jacobian(x), Eigen::Matrix<F, 1, D>(-a.transpose() / nn), 1, "m - |x|");
            eq(g.jacobian(x), Eigen::Matrix<F, 1, D>(-a.transpose() / nn / nn / nn * c), c / nn / nn, "m / |x|");
        }
    }
    s.nontrivial();
}
template <bool J> void anyScalar(pbt::Source &s) {
    using Sd = wave::Scalar<double>; using Sf = wave::Scalar<float>; using Fr = wave::Framed<Sd, FA, FB, FC>;
    switch (s.below(14)) {
        case 0: scalars<Sd, int, J>(s); break; case 1: scalars<Sd, unsigned, J>(s); break; case 2: scalars<Sd, short, J>(s); break; case 3: scalars<Sd, unsigned char, J>(s); break;
        case 4: scalars<Sd, long, J>(s); break; case 5: scalars<Sd, unsigned long, J>(s); break; case 6: scalars<Sd, float, J>(s); break; case 7: scalars<Sd, bool, J>(s); break;
        case 8: scalars<Sf, int, J>(s); break; case 9: scalars<Sf, unsigned, J>(s); break; case 10: scalars<Sf, double, J>(s); break;
        case 11: scalars<Sf, float, J>(s); break; case 12: scalars<Fr, int, J>(s); break; default: scalars<Sd, double, J>(s);
    }
}
template <bool J> void anyVector(pbt::Source &s) {
    using Tf = wave::Translation<Eigen::Vector3f>;
    switch (s.below(8)) {
        case 0: vectors<wave::Translationd, int, J>(s); break; case 1: vectors<wave::RelativeRotationd, unsigned, J>(s); break; case 2: vectors<wave::Twistd, int, J>(s); break;
        case 3: vectors<wave::Translationd, float, J>(s); break; case 4: vectors<wave::Twistd, unsigned char, J>(s); break; case 5: vectors<wave::RelativeRotationd, long, J>(s); break;
        case 6: vectors<Tf, int, J>(s); break; default: vectors<Tf, unsigned, J>(s);
    }
}
}  // namespace mixed
