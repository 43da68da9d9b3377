// Numerical Jacobians against the reference derivative.
#pragma once
#include "reps.hpp"
#include "../C15/compound.hpp"
namespace nj {
using ref::F; using ref::Val; using ref::Mat; using rp::VL;
/** bytes of an object */
template <typename L> std::string bytes(const L &x) { return std::string(reinterpret_cast<const char *>(&x), sizeof x); }
inline void unchanged(const std::vector<std::string> &a, const std::vector<std::string> &b, const char *how) {
    for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) pbt::fail(how, " changed leaf ", i);
}
/** forward difference of the reference */
inline Mat forward(const ref::Fn &f, const VL &l, int i, F h) {
    const Val v = f(l);
    Mat o(ref::dof(v), ref::dof(l[i]));
    for (int k = 0; k < o.c; ++k) {
        VL m = l;
        m[i] = ref::perturb(l[i], k, h);
        const auto d = ref::diff(f(m), v);
        for (int r = 0; r < o.r; ++r) o(r, k) = d[r] / h;
    }
    return o;
}
struct Want {
    std::vector<Mat> J, slack;   // derivative, and the error a difference of step ~sqrt(eps) may make
    F tol;
    Want(const ref::Fn &f, const VL &l, F eps) {
        const rp::Ref r{f, l};
        J = r.J;
        const F step = std::sqrt(eps);
        F m = ref::mag(r.value);
        for (auto &x : l) m = std::max(m, ref::mag(x));
        F big = 0;
        for (auto &x : J) big = std::max(big, x.maxabs());
        if (m > 1e3L || big > 1e3L) throw pbt::Discard{};
        tol = 200 * step * (1 + m) * (1 + big);
        for (size_t i = 0; i < l.size(); ++i) {
            // second derivative from a wide and a narrow forward difference
            const Mat a = nj::forward(f, l, (int) i, 1e-4L), b = nj::forward(f, l, (int) i, 4 * step);
            Mat s = J[i];
            for (int p = 0; p < s.r; ++p) for (int q = 0; q < s.c; ++q)
                s(p, q) = 10 * std::max(std::fabs(a(p, q) - J[i](p, q)) * step / 1e-4L, std::fabs(b(p, q) - J[i](p, q)));
            // so curved that a difference says nothing
            if (s.maxabs() > 0.05L * (1 + big)) throw pbt::Discard{};
            slack.push_back(s);
        }
        if (tol > 0.05L * (1 + big)) throw pbt::Discard{};
    }
    void check(size_t i, const Mat &got, const char *how) const {
        if (got.r != J[i].r || got.c != J[i].c) pbt::fail(how, ": wrong size of the Jacobian w.r.t. leaf ", i);
        for (int p = 0; p < got.r; ++p) for (int q = 0; q < got.c; ++q) if (!(std::fabs(got(p, q) - J[i](p, q)) <= tol + slack[i](p, q)))
            pbt::fail(how, ": Jacobian w.r.t. leaf ", i, ": got ", got, " want ", J[i], " tolerance ", (double) (tol + slack[i](p, q)), " at ", p, ",", q);
    }
    void all(const std::vector<Mat> &got, const char *how, size_t from = 0) const { for (size_t i = 0; i < got.size(); ++i) check(from + i, got[i], how); }
};
template <typename Tuple, size_t... I> std::vector<Mat> mats(const Tuple &t, std::index_sequence<I...>) { return {gen::mat(std::get<I>(t))...}; }
template <typename Tuple> std::vector<Mat> mats(const Tuple &t) { return mats(t, std::make_index_sequence<std::tuple_size<std::decay_t<Tuple>>::value>{}); }
template <typename E, typename Tuple, size_t... I> std::vector<Mat> reversed(const E &e, const Tuple &t, std::index_sequence<I...>) {
    constexpr size_t N = sizeof...(I);
    auto m = mats(wave::evaluateNumericalJacobians(e, std::get<N - 1 - I>(t)...));
    std::reverse(m.begin(), m.end());
    return m;
}
/** e is the library expression over targets ls; f the reference over the same followed by any others, whose values are in `more` */
template <typename E, typename... Ls>
void compareWith(pbt::Source &s, const VL &l, double eps, const E &e, const ref::Fn &f, const Ls &... ls) {
    const Want w{f, l, eps};
    s.nontrivial();
    const std::vector<std::string> before{bytes(ls)...};
    w.all({gen::mat(wave::evaluateNumericalJacobian(e, ls))...}, "evaluateNumericalJacobian");
    unchanged(before, {bytes(ls)...}, "evaluateNumericalJacobian");
    w.all(mats(wave::evaluateNumericalJacobians(e, ls...)), "evaluateNumericalJacobians");
    w.all(reversed(e, std::tie(ls...), std::make_index_sequence<sizeof...(Ls)>{}), "evaluateNumericalJacobians in the opposite order");
    unchanged(before, {bytes(ls)...}, "evaluateNumericalJacobians");
    // the expression itself still evaluates to the same
    gen::close(gen::val(e.eval()), f(l), sizeof(wave::internal::scalar_t<E>) == 4 ? 1e-3L * (1 + ref::mag(f(l))) : rp::valTol(f(l)), "value afterwards");
}
template <typename E, typename... Ls>
void compare(pbt::Source &s, const E &e, const ref::Fn &f, const Ls &... ls) {
    compareWith(s, VL{gen::val(ls)...}, Eigen::NumTraits<wave::internal::scalar_t<E>>::epsilon(), e, f, ls...);
}
inline void stacked(const std::vector<Want> &w, size_t i, const Mat &got, const char *how) {
    int rows = 0;
    for (auto &x : w) rows += x.J[i].r;
    if (got.r != rows) pbt::fail(how, ": rows of the Jacobian w.r.t. leaf ", i);
    int at = 0;
    for (auto &x : w) {
        Mat b(x.J[i].r, got.c);
        for (int p = 0; p < b.r; ++p) for (int q = 0; q < b.c; ++q) b(p, q) = got(at + p, q);
        at += b.r;
        x.check(i, b, how);
    }
}
/** a compound expression; fs the reference of each element */
template <typename E, typename... Ls>
void blocks(pbt::Source &s, const E &e, const std::vector<ref::Fn> &fs, const Ls &... ls) {
    const VL l{gen::val(ls)...};
    std::vector<Want> w;
    for (auto &f : fs) w.emplace_back(f, l, Eigen::NumTraits<double>::epsilon());
    s.nontrivial();
    const std::vector<std::string> before{bytes(ls)...};
    const std::vector<Mat> one{gen::mat(wave::evaluateNumericalJacobian(e, ls))...}, all = mats(wave::evaluateNumericalJacobians(e, ls...));
    for (size_t i = 0; i < sizeof...(Ls); ++i) { stacked(w, i, one[i], "evaluateNumericalJacobian"); stacked(w, i, all[i], "evaluateNumericalJacobians"); }
    unchanged(before, {bytes(ls)...}, "numerical Jacobians of a compound");
}
/** a stored compound w.r.t. each of its elements */
template <typename C, size_t... I> void ofElements(const C &x, std::index_sequence<I...>) {
    int at = 0;
    auto one = [&](const Mat &m, const char *how) {
        if (m.r != (int) wave::internal::eval_traits<C>::TangentSize) pbt::fail(how, ": size");
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) if (!(std::fabs(m(i, j) - (i == at + j ? 1 : 0)) < 1e-4L)) pbt::fail(how, ": got ", m);
        return m.c;
    };
    ((at += one(gen::mat(wave::evaluateNumericalJacobian(x, x.template get<I>())), "w.r.t. an element of a compound")), ...);
    at = 0;
    for (auto &m : mats(wave::evaluateNumericalJacobians(x, x.template get<I>()...))) at += one(m, "w.r.t. all elements of a compound");
}
template <typename C> void ofCompounds(pbt::Source &s) {
    const C x = cmp::fresh<C>(s);
    s.nontrivial();
    const std::string before = bytes(x);
    ofElements(x, cmp::Seq<C>{});
    unchanged({before}, {bytes(x)}, "numerical Jacobians w.r.t. elements");
}
/** the same leaf in single precision */
inline auto narrow(const wave::RotationMd &x) { return wave::MatrixRotation<Eigen::Matrix3f>{Eigen::Matrix3f(x.value().cast<float>())}; }
inline auto narrow(const wave::RotationQd &x) { return wave::QuaternionRotation<Eigen::Quaternionf>{Eigen::Quaternionf(x.value().cast<float>())}; }
inline auto narrow(const wave::RotationAd &x) { return wave::AngleAxisRotation<Eigen::AngleAxisf>{Eigen::AngleAxisf((float) x.value().angle(), x.value().axis().cast<float>())}; }
inline auto narrow(const wave::RigidTransformMd &x) { return wave::MatrixRigidTransform<Eigen::Matrix4f>{Eigen::Matrix4f(x.value().cast<float>())}; }
inline auto narrow(const wave::RigidTransformQd &x) {
    wave::CompactRigidTransform<Eigen::Quaternionf, Eigen::Vector3f> r;
    r.rotationBlock().value() = x.rotationBlock().value().cast<float>();
    r.translationBlock().value() = x.translationBlock().value().cast<float>();
    return r;
}
inline auto narrow(const wave::Translationd &x) { return wave::Translation<Eigen::Vector3f>{Eigen::Vector3f(x.value().cast<float>())}; }
inline auto narrow(const wave::RelativeRotationd &x) { return wave::RelativeRotation<Eigen::Vector3f>{Eigen::Vector3f(x.value().cast<float>())}; }
inline auto narrow(const wave::Pointd &x) { return wave::Point<Eigen::Vector3f>{Eigen::Vector3f(x.value().cast<float>())}; }
inline auto narrow(const wave::Twistd &x) { return wave::Twist<Eigen::Matrix<float, 6, 1>>{Eigen::Matrix<float, 6, 1>(x.value().cast<float>())}; }
inline auto narrow(const wave::Scalar<double> &x) { return wave::Scalar<float>{(float) x.value()}; }
}  // namespace nj
