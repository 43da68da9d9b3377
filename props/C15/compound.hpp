// Compounds used by the C15 check, and the comparison of a compound expression with its elements.
#pragma once
#include "prog.hpp"
namespace cmp {
/** a compound of vectors */
template <typename... Es>
struct VecN : wave::CompoundVectorBase<VecN<Es...>>, wave::NaryStorage<VecN<Es...>, Es...> {
    using Storage = wave::NaryStorage<VecN<Es...>, Es...>;
    using Storage::Storage;
    using Storage::operator=;
};
/** a compound which may hold points */
template <typename... Es>
struct ManN : wave::CompoundBase<ManN<Es...>>, wave::NaryStorage<ManN<Es...>, Es...> {
    using Storage = wave::NaryStorage<ManN<Es...>, Es...>;
    using Storage::Storage;
    using Storage::operator=;
};
}  // namespace cmp
namespace wave { namespace internal {
template <typename... Es>
struct traits<cmp::VecN<Es...>> : compound_vector_traits_base<cmp::VecN<Es...>, Es...>, frameable_vector_traits {};
template <typename... Es>
struct traits<cmp::ManN<Es...>> : compound_traits_base<cmp::ManN<Es...>, Es...>, frameable_vector_traits {
    using TangentType = cmp::VecN<typename eval_traits<Es>::TangentType...>;
};
} }
namespace cmp {
using ref::F; using ref::Val; using ref::Mat; using rp::VL;
namespace wi = wave::internal;
template <typename C> constexpr size_t count() { return wi::traits<C>::CompoundSize; }
template <typename C> using Seq = std::make_index_sequence<count<C>()>;
template <typename C, size_t I> using Elem = typename wi::traits<C>::template ElementType<I>;

template <typename C, size_t... I>
std::vector<Val> vals(const C &c, std::index_sequence<I...>) { return {gen::val(wave::eval(c.template get<I>()))...}; }
template <typename C> std::vector<Val> vals(const C &c) { return vals(c, Seq<C>{}); }
template <typename T> void append(std::vector<double> &o, const T &el) {
    if constexpr (std::is_same<T, wave::Scalar<double>>::value) o.push_back(el.value());
    else for (int i = 0; i < el.value().size(); ++i) o.push_back(el.value()[i]);
}
template <typename C, size_t... I>
std::vector<double> coefficients(const C &c, std::index_sequence<I...>) {
    std::vector<double> o;
    (append(o, c.template get<I>()), ...);
    return o;
}

inline void closeAll(const std::vector<Val> &got, const std::vector<Val> &want, F rel, const std::string &what) {
    if (got.size() != want.size()) pbt::fail(what, ": number of elements");
    for (size_t i = 0; i < got.size(); ++i)
        gen::close(got[i], want[i], rel * (1 + ref::mag(want[i])), what + ", element " + std::to_string(i));
}
template <typename C, size_t... I>
C fresh(pbt::Source &s, std::index_sequence<I...>) {
    return C{rp::tame<Elem<C, I>>(s, "other")...};
}
/** an unrelated compound of the same type */
template <typename C> C fresh(pbt::Source &s) { return fresh<C>(s, Seq<C>{}); }
template <typename C, size_t... I>
C copyOf(const C &c, std::index_sequence<I...>) { return C{Elem<C, I>{c.template get<I>()}...}; }

/** vertical stack of blocks */
inline Mat stack(const std::vector<Mat> &b) {
    int r = 0;
    for (auto &m : b) r += m.r;
    Mat o(r, b[0].c);
    int at = 0;
    for (auto &m : b) {
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) o(at + i, j) = m(i, j);
        at += m.r;
    }
    return o;
}
template <typename E, typename X, size_t... I>
Mat elementwise(const E &e, const X &x, std::index_sequence<I...>) {
    // the same Jacobians, taken from each element by itself
    auto one = [&](const auto &el, int rows) {
        using El = std::decay_t<decltype(el)>;
        if constexpr (wi::contains_same_type<El, X>::value) {
            if constexpr (wi::unique_leaves_t<El>::value) {
                // leaves are told apart by type in such a tree; another object of that type is no valid target
                const auto d = wi::evaluateWithDynamicJacobians(el, x);
                return gen::mat(std::get<1>(d));
            } else return gen::mat(el.jacobian(x));
        } else return Mat(rows, (int) wi::eval_traits<X>::TangentSize);
    };
    return stack({one(e.template get<I>(), (int) wi::eval_traits<Elem<E, I>>::TangentSize)...});
}
template <typename C, size_t... I>
bool approxEach(const C &a, const C &b, double prec, std::index_sequence<I...>) {
    return (a.template get<I>().isApprox(b.template get<I>(), prec) && ...);
}
template <typename A, typename B, size_t... I>
std::vector<Val> minusEach(const A &a, const B &b, std::index_sequence<I...>) {
    return {gen::val(wave::eval(a.template get<I>() - b.template get<I>()))...};
}
template <typename A, typename B, size_t... I>
std::vector<Val> plusEach(const A &a, const B &b, std::index_sequence<I...>) {
    return {gen::val(wave::eval(a.template get<I>() + b.template get<I>()))...};
}
template <typename C, size_t... I>
void perturb(pbt::Source &s, C &c, double by, std::index_sequence<I...>) {
    const size_t k = s.below(sizeof...(I));
    auto one = [&](auto &el) {
        using T = std::decay_t<decltype(el)>;
        if constexpr (wi::is_scalar<T>::value || std::is_same<T, wave::Scalar<double>>::value) el.value() += by;
        else el.value()[s.below(el.value().size())] += by;
    };
    ((I == k ? one(c.template get<I>()) : void()), ...);
}

/** e: a compound expression over leaves ls, fs: reference of each element */
template <bool IsVec, typename E, typename... Ls>
void compare(pbt::Source &s, const E &e, const std::vector<ref::Fn> &fs, const Ls &... ls) {
    const VL l{gen::val(ls)...};
    constexpr size_t N = sizeof...(Ls);
    std::vector<Val> want;
    std::vector<std::vector<Mat>> jb(N);      // per leaf: the blocks
    F vt = 0, jt = 0;
    for (auto &f : fs) {
        rp::Ref r{f, l};
        if (rp::wide() && r.vtol > 1e-9L * (1 + ref::mag(r.value))) rp::off();
        want.push_back(r.value);
        for (size_t i = 0; i < N; ++i) jb[i].push_back(r.J[i]);
        jt = std::max(jt, r.jtol);
    }
    (void) vt;
    std::vector<Mat> J;
    for (size_t i = 0; i < N; ++i) J.push_back(stack(jb[i]));
    s.nontrivial();
    // value
    const auto x = e.eval();
    using C = std::decay_t<decltype(x)>;
    closeAll(vals(x), want, 1e-9L, "eval()");
    closeAll(vals(e), want, 1e-9L, "get() of the expression");
    const C built{e};
    closeAll(vals(built), want, 1e-9L, "construction from the expression");
    C y = fresh<C>(s);
    const std::vector<Val> yv = vals(y);
    C z{y};
    closeAll(vals(z), yv, 0, "copy");
    z = e;
    closeAll(vals(z), want, 1e-9L, "assignment from the expression");
    closeAll(vals(y), yv, 0, "after assignment to a copy");
    // Jacobians
    rp::same(rp::each(e, ls...), J, jt, "jacobian()");
    rp::same(rp::together(e, ls...), J, jt, "evalWithJacobians(...)");
    closeAll(vals(std::get<0>(e.evalWithJacobians(ls...))), want, 1e-9L, "value from evalWithJacobians(...)");
    auto idx = std::make_index_sequence<N>{};
    rp::same(rp::tail(wi::evaluateWithJacobians(e, ls...), idx), J, jt, "forward mode");
    rp::same(rp::tail(wi::evaluateWithDynamicJacobians(e, ls...), idx), J, jt, "dynamic mode");
    {
        const std::vector<Mat> el{elementwise(e, ls, Seq<E>{})...}, got{gen::mat(e.jacobian(ls))...};
        for (size_t i = 0; i < N; ++i) gen::close(got[i], el[i], 1e-11L * (1 + el[i].maxabs()), "Jacobian against those of the elements, leaf " + std::to_string(i));
    }
    if (s.below(4) == 0) {
        s.label("numerical Jacobians");
        const std::vector<Mat> nj{gen::mat(wave::evaluateNumericalJacobian(e, ls))...};
        F m = 0;
        for (auto &v : want) m = std::max(m, ref::mag(v));
        for (auto &j : J) m = std::max(m, j.maxabs());
        for (size_t i = 0; i < N; ++i)
            if (m < 100 && !rp::wide()) gen::close(nj[i], J[i], 1e-3L * (1 + m), "numerical Jacobian, leaf " + std::to_string(i));
    }
    // box-minus and box-plus
    constexpr Seq<C> seq{};
    const auto d = (x - y).eval();
    closeAll(vals(d), minusEach(x, y, seq), 1e-14L, "difference");
    closeAll(vals((y - x).eval()), minusEach(y, x, seq), 1e-14L, "difference");
    closeAll(vals((e - y).eval()), minusEach(x, y, seq), 1e-9L, "difference of an expression");
    closeAll(vals((y - e).eval()), minusEach(y, x, seq), 1e-9L, "difference with an expression");
    closeAll(vals((y + d).eval()), want, 1e-8L, "y + (x - y)");
    closeAll(vals((y + d).eval()), plusEach(y, d, seq), 1e-14L, "sum");
    closeAll(vals((y + (e - y)).eval()), want, 1e-8L, "y + (expression - y)");
    closeAll(vals((e + d).eval()), plusEach(x, d, seq), 1e-9L, "sum of an expression");
    if constexpr (IsVec) {
        // as one vector
        const auto v = wi::naryValueAsVectorExpand(x, seq);
        const std::vector<double> flat = coefficients(x, seq);
        if (v.size() != (int) flat.size()) pbt::fail("size of the stacked vector");
        for (size_t i = 0; i < flat.size(); ++i) if (v[i] != flat[i]) pbt::fail("stacked vector, coefficient ", i);
        // comparison
        if (!x.isApprox(x)) pbt::fail("isApprox is not reflexive");
        if (!(x.isApprox(e, 1e-9) && e.isApprox(x, 1e-9))) pbt::fail("isApprox of an expression and its value");
        C p{x};
        const double by = std::pow(10.0, -(double) s.range(1, 13)) * (s.coin() ? 1 : -1), prec = std::pow(10.0, -(double) s.range(1, 13));
        perturb(s, p, by, seq);
        const bool got = x.isApprox(p, prec), ea = approxEach(x, p, prec, seq);
        if (got != ea) pbt::fail("isApprox gives ", got, " but its elements ", ea, " (precision ", prec, ", one coefficient changed by ", by, ")");
        const bool got2 = x.isApprox(y), ea2 = approxEach(x, y, 1e-12, seq);
        if (got2 != ea2) pbt::fail("isApprox of unrelated compounds gives ", got2, " but its elements ", ea2);
        s.label(got ? "approximately equal" : "different");
    }
    // writing one element changes it alone
    const auto before = vals(z);
    perturb(s, z, 0.25, seq);
    int changed = 0;
    const auto zv = vals(z);
    for (size_t i = 0; i < zv.size(); ++i) changed += ref::dist(zv[i], before[i]) > 0;
    if (changed > 1 || (changed == 0 && !rp::wide())) pbt::fail("writing one element changed ", changed);
}
}  // namespace cmp
