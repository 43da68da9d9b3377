// Checks of factors and noise models (C14)
#pragma once
#include "prog.hpp"
namespace cmp {
template <typename... Es>
struct Meas : wave::CompoundVectorBase<Meas<Es...>>, wave::NaryStorage<Meas<Es...>, Es...> {
    using Storage = wave::NaryStorage<Meas<Es...>, Es...>;
    using Storage::Storage;
    using Storage::operator=;
};
}  // namespace cmp
namespace wave { namespace internal {
template <typename... Es>
struct traits<cmp::Meas<Es...>> : compound_vector_traits_base<cmp::Meas<Es...>, Es...>, frameable_vector_traits {};
} }
namespace fac {
using ref::F; using ref::Val; using ref::Mat; using rp::VL;
namespace wi = wave::internal;
using LMat = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using LVec = Eigen::Matrix<long double, Eigen::Dynamic, 1>;

inline double stddev(pbt::Source &s) { return s.below(4) == 0 ? std::pow(10.0, s.uniform(-12, 8)) : std::pow(10.0, s.uniform(-3, 2)); }
/** a random symmetric positive definite matrix, exactly symmetric */
template <int N>
Eigen::Matrix<double, N, N> spd(pbt::Source &s) {
    using M = Eigen::Matrix<double, N, N>;
    M a;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) a(i, j) = s.uniform(-1, 1);
    const M q = N == 1 ? M(M::Identity()) : M(Eigen::HouseholderQR<M>(a).householderQ());
    Eigen::Matrix<double, N, 1> e;
    const double scale = s.below(4) == 0 ? std::pow(10.0, s.uniform(-24, 16)) : std::pow(10.0, s.uniform(-4, 3));
    const int how = (int) s.below(3);
    for (int i = 0; i < N; ++i) e[i] = how == 0 ? scale : scale * std::pow(10.0, s.uniform(how == 1 ? -0.5 : -3, 0));
    if (how == 0) s.label("equal eigenvalues");
    M c = q * e.asDiagonal() * q.transpose();
    if (s.below(4) == 0) { c = M(c.diagonal().asDiagonal()); s.label("diagonal covariance"); }
    M o = (c + c.transpose()) / 2;
    return o;
}
template <typename M> LMat wide(const M &m) { const auto d = m.eval(); LMat o(d.rows(), d.cols()); for (int i = 0; i < d.rows(); ++i) for (int j = 0; j < d.cols(); ++j) o(i, j) = d(i, j); return o; }
template <typename Leaf> constexpr int dim() { return wi::traits<Leaf>::TangentSize; }

/** covariance given to a full noise model, and the model's answers */
template <typename Leaf>
wave::FullNoise<Leaf> full(pbt::Source &s, LMat &cov) {
    const Eigen::Matrix<double, dim<Leaf>(), dim<Leaf>()> c = spd<dim<Leaf>()>(s);
    cov = wide(c);
    using Bm = wave::BlockMatrix<Leaf, Leaf>;
    auto make = [&] {
        switch (s.below(3)) {
            case 0: return wave::FullNoise<Leaf>::FromCovariance(c);
            case 1: { Bm b{c}; return wave::FullNoise<Leaf>::FromCovariance(std::move(b)); }
            default: return wave::FullNoise<Leaf>::FromCovariance(1.0 * c);
        }
    };
    const auto n = make();
    if (wide(n.covariance()) != cov) pbt::fail("covariance() is not the covariance given");
    const LMat L = wide(n.inverseSqrtCov());
    const LMat I = LMat::Identity(dim<Leaf>(), dim<Leaf>());
    Eigen::SelfAdjointEigenSolver<LMat> es(cov);
    const F cond = es.eigenvalues().maxCoeff() / es.eigenvalues().minCoeff();
    if (!(cond < 1e9L)) throw pbt::Discard{};
    const F err = (L * cov * L.transpose() - I).cwiseAbs().maxCoeff();
    if (!(err < 1e-13L * cond)) pbt::fail("inverseSqrtCov() does not whiten the covariance: error ", (double) err, " condition ", (double) cond);
    const auto copy = n;
    if (wide(copy.covariance()) != cov || wide(copy.inverseSqrtCov()) != L) pbt::fail("copy of the noise differs");
    if (wide(wave::FullNoise<Leaf>{n}.covariance()) != cov) pbt::fail("covariance() of a temporary");
    if (wide(wave::FullNoise<Leaf>{n}.inverseSqrtCov()) != L) pbt::fail("inverseSqrtCov() of a temporary");
    return n;
}
template <typename Leaf, size_t... I>
wave::DiagonalNoise<Leaf> byNumbers(const Eigen::Matrix<double, dim<Leaf>(), 1> &sd, std::index_sequence<I...>) {
    return wave::DiagonalNoise<Leaf>::FromStdDev(sd[I]...);
}
constexpr bool byNumbersOk(int n) { return n <= 4; }
template <typename Leaf>
wave::DiagonalNoise<Leaf> diagonal(pbt::Source &s, LMat &cov) {
    constexpr int N = dim<Leaf>();
    Eigen::Matrix<double, N, 1> sd;
    for (int i = 0; i < N; ++i) sd[i] = s.below(6) == 0 ? 1.0 : stddev(s);
    cov = LMat::Zero(N, N);
    for (int i = 0; i < N; ++i) cov(i, i) = (F) sd[i] * sd[i];
    auto make = [&] {
        if constexpr (byNumbersOk(N)) { if (s.coin()) { s.label("deviations as numbers"); return byNumbers<Leaf>(sd, std::make_index_sequence<N>{}); } }
        return wave::DiagonalNoise<Leaf>::FromStdDev(sd);
    };
    const auto n = make();
    const LMat c = wide(n.covariance().toDenseMatrix()), L = wide(n.inverseSqrtCov().toDenseMatrix());
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
        if (std::fabs(c(i, j) - cov(i, j)) > 1e-15L * cov(i, i)) pbt::fail("covariance(", i, ",", j, ") of diagonal noise: got ", (double) c(i, j), " want ", (double) cov(i, j));
        const F w = i == j ? 1 / (F) sd[i] : 0;
        if (std::fabs(L(i, j) - w) > 1e-15L * std::fabs(w)) pbt::fail("inverseSqrtCov(", i, ",", j, ") of diagonal noise: got ", (double) L(i, j), " want ", (double) w);
    }
    if (wide(wave::DiagonalNoise<Leaf>{n}.covariance().toDenseMatrix()) != c) pbt::fail("covariance() of a temporary");
    if (wide(wave::DiagonalNoise<Leaf>{n}.inverseSqrtCov().toDenseMatrix()) != L) pbt::fail("inverseSqrtCov() of a temporary");
    return n;
}
template <typename T> constexpr bool isCompound() { return wi::is_compound_leaf_expression<T>::value; }
template <typename T> void coeffs(std::vector<F> &o, const T &el) {
    if constexpr (std::is_same<T, wave::Scalar<double>>::value) o.push_back(el.value());
    else for (int i = 0; i < el.value().size(); ++i) o.push_back(el.value()[i]);
}
template <typename C, size_t... I> void all(std::vector<F> &o, const C &c, std::index_sequence<I...>) { (coeffs(o, c.template get<I>()), ...); }
template <typename M> std::vector<F> flatLib(const M &m) {
    std::vector<F> o;
    if constexpr (isCompound<M>()) all(o, m, std::make_index_sequence<wi::traits<M>::CompoundSize>{});
    else coeffs(o, m);
    return o;
}
inline std::vector<F> coordsOf(const Val &x) {
    if (x.k == ref::SCALAR) return {x.s};
    std::vector<F> o;
    for (int i = 0; i < 3; ++i) o.push_back(x.v[i]);
    if (x.k == ref::TWIST) for (int i = 0; i < 3; ++i) o.push_back(x.u[i]);
    return o;
}
inline std::vector<F> flatRef(const std::vector<Val> &v) {
    std::vector<F> o;
    for (auto &x : v) for (F c : coordsOf(x)) o.push_back(c);
    return o;
}
template <typename M, size_t... I> M freshMeas(pbt::Source &s, std::index_sequence<I...>) { return M{rp::tame<typename wi::traits<M>::template ElementType<I>>(s, "measured")...}; }
template <typename M> M measure(pbt::Source &s) {
    if constexpr (isCompound<M>()) return freshMeas<M>(s, std::make_index_sequence<wi::traits<M>::CompoundSize>{});
    else return rp::tame<M>(s, "measured");
}
template <typename L, typename = void> struct HasData : std::false_type {};
template <typename L> struct HasData<L, std::void_t<decltype(std::declval<L &>().value().data()), decltype(std::declval<L &>().value().size())>> : std::true_type {};
template <typename L> std::shared_ptr<wave::FactorVariable<L>> variable() {
    if constexpr (HasData<L>::value) return std::make_shared<wave::FactorVariable<L>>();
    else return nullptr;
}
template <typename L> void checkVariable(pbt::Source &s, const L &x, wave::FactorVariable<L> *v) {
    if constexpr (HasData<L>::value) {
        v->value() = x;
        const wave::FactorVariable<L> &cv = *v;
        wave::FactorVariableBase &b = *v;
        if ((int) b.size() != (int) x.value().size()) pbt::fail("size of a variable's array");
        for (size_t i = 0; i < b.size(); ++i) if (b.data()[i] != x.value().data()[i]) pbt::fail("array of a variable, number ", i);
        const size_t k = s.below(b.size());
        b.data()[k] += 1;
        for (size_t i = 0; i < b.size(); ++i) if (cv.value().value().data()[i] != x.value().data()[i] + (i == k)) pbt::fail("writing a variable's array");
    }
}
template <typename L> LMat isc(const wave::FullNoise<L> &n) { return wide(n.inverseSqrtCov()); }
template <typename L> LMat isc(const wave::DiagonalNoise<L> &n) { return wide(n.inverseSqrtCov().toDenseMatrix()); }

template <typename Factor, typename Meas, typename Noise, typename... Ls>
void evaluateAt(const Factor &f, const Meas &m, const Noise &noise, const LMat &cov, const std::vector<ref::Fn> &fs, const VL &at, const std::vector<size_t> &which, const Ls &... ls) {
    // fs over the values at[which[i]]: an object passed twice is one variable
    std::vector<Val> want;
    std::vector<std::vector<Mat>> jb(sizeof...(Ls));
    F jt = 0, big = 0;
    std::vector<F> tol;
    for (auto &fn : fs) {
        ref::Fn merged = [&](const VL &l) { VL a; for (size_t i : which) a.push_back(l[i]); return fn(a); };
        const rp::Ref r{merged, at};
        want.push_back(r.value);
        jt = std::max(jt, r.jtol);
        for (size_t i = 0; i < sizeof...(Ls); ++i) jb[i].push_back(r.J[which[i]]);
        for (size_t k = 0; k < coordsOf(r.value).size(); ++k) tol.push_back(r.vtol);
        big = std::max(big, r.vtol);
    }
    const std::vector<F> v = flatRef(want), mv = flatLib(m);
    const int n = (int) v.size();
    LVec d(n);
    for (int i = 0; i < n; ++i) d[i] = v[i] - mv[i];
    const LMat L = isc(noise);
    const LVec r = L * d;
    auto check = [&](const auto &got, const char *how) {
        if (got.size() != n) pbt::fail(how, ": size of the residual");
        F m2 = 0, slack = 0;
        for (int i = 0; i < n; ++i) {
            F t = 0;
            for (int j = 0; j < n; ++j) t += std::fabs(L(i, j)) * (tol[j] + 1e-14L * (std::fabs(v[j]) + std::fabs(mv[j])));
            if (!(std::fabs(got[i] - r[i]) <= t)) pbt::fail(how, ": residual ", i, ": got ", (double) got[i], " want ", (double) r[i], " tolerance ", (double) t);
            m2 += (F) got[i] * got[i]; slack += t * (2 * std::fabs(r[i]) + t);
        }
        // independent of the square root: the squared norm is the squared Mahalanobis distance
        const F maha = d.dot(cov.ldlt().solve(d));
        F dmin = 0;
        for (int i = 0; i < n; ++i) dmin = std::max(dmin, std::fabs(d[i]));
        if (dmin > 1e-3L && !(std::fabs(m2 - maha) <= 1e-5L * maha + slack)) pbt::fail(how, ": squared norm of the residual ", (double) m2, " but d^T C^-1 d is ", (double) maha);
    };
    check(f.evaluate(ls...), "evaluate");
    auto t = f.evaluateWithJacobians(ls...);
    static_assert(std::tuple_size<decltype(t)>::value == sizeof...(Ls) + 1, "one Jacobian per variable");
    check(std::get<0>(t), "evaluateWithJacobians");
    const auto J = rp::tail(t, std::make_index_sequence<sizeof...(Ls)>{});
    for (size_t i = 0; i < J.size(); ++i) {
        Mat w(0, 0);
        int rows = 0;
        for (auto &b : jb[i]) rows += b.r;
        w = Mat(rows, jb[i][0].c);
        int a = 0;
        for (auto &b : jb[i]) { for (int p = 0; p < b.r; ++p) for (int q = 0; q < b.c; ++q) w(a + p, q) = b(p, q); a += b.r; }
        gen::close(J[i], w, jt, "Jacobian of variable " + std::to_string(i));
    }
}
/** one factor with measurement type M and functor Fn over leaves ls */
template <typename Fn, typename M, template <typename> class Noise, typename Dup, typename... Ls>
void factorWith(pbt::Source &s, const std::vector<ref::Fn> &fs, Dup dup, const Ls &... ls) {
    LMat cov;
    const M m = measure<M>(s);
    auto noise = [&] {
        if constexpr (std::is_same<Noise<M>, wave::FullNoise<M>>::value) return full<M>(s, cov);
        else return diagonal<M>(s, cov);
    }();
    const VL at{gen::val(ls)...};
    std::vector<size_t> id(sizeof...(Ls));
    for (size_t i = 0; i < id.size(); ++i) id[i] = i;
    const wave::Uncertain<M, Noise> u{m, noise};
    auto vars = std::make_tuple(variable<Ls>()...);
    (checkVariable<Ls>(s, ls, std::get<std::shared_ptr<wave::FactorVariable<Ls>>>(std::make_tuple(variable<Ls>())).get()), ...);
    const auto f = std::apply([&](auto... v) { return wave::makeFactor<Fn>(u, v...); }, vars);
    s.nontrivial();
    const wave::FactorBase &base = f;
    if (base.size() != sizeof...(Ls) || (size_t) (f.end() - f.begin()) != sizeof...(Ls)) pbt::fail("number of variables");
    if (base.isPerfectPrior()) pbt::fail("a noisy factor says it is a perfect prior");
    {
        auto it = f.begin();
        std::apply([&](auto... v) { ((std::shared_ptr<wave::FactorVariableBase>(v) == *it++ ? void() : pbt::fail("variables in another order")), ...); }, vars);
    }
    evaluateAt(f, m, noise, cov, fs, at, id, ls...);
    const auto copy = f;
    evaluateAt(copy, m, noise, cov, fs, at, id, ls...);
    // the same object for several variables
    dup([&](const std::vector<size_t> &which, const auto &... as) { evaluateAt(f, m, noise, cov, fs, at, which, as...); });
}
template <typename Fn, typename M, template <typename> class Noise, typename... Ls>
void factor(pbt::Source &s, const std::vector<ref::Fn> &fs, const Ls &... ls) {
    factorWith<Fn, M, Noise>(s, fs, [](auto &&) {}, ls...);
}
/** the noise models of a leaf type */
template <typename Leaf> void noises(pbt::Source &s) {
    LMat c;
    s.nontrivial();
    full<Leaf>(s, c);
    diagonal<Leaf>(s, c);
}
}  // namespace fac
