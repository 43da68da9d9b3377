// Placeholder versus concrete element.
#pragma once
#include "prog.hpp"
struct A;
namespace gen {
template <typename L> ref::Val val(const wave::Identity<L> &i) { return val(L{i.value()}); }
template <typename L, typename... Fr> ref::Val val(const wave::Zero<wave::Framed<L, Fr...>> &) { return val(wave::Zero<L>{}); }
template <typename L, typename... Fr> ref::Val val(const wave::Identity<wave::Framed<L, Fr...>> &) { return val(wave::Identity<L>{}); }
}
namespace ph {
using ref::Val; using ref::Mat;
/** the concrete element a placeholder stands for */
template <typename L> struct Concrete;
template <typename I> struct Concrete<wave::MatrixRotation<I>> { static auto make() { return wave::MatrixRotation<I>{Eigen::Matrix3d::Identity()}; } };
template <typename I> struct Concrete<wave::QuaternionRotation<I>> { static auto make() { return wave::QuaternionRotation<I>{Eigen::Quaterniond{1, 0, 0, 0}}; } };
template <typename I> struct Concrete<wave::AngleAxisRotation<I>> { static auto make() { return wave::AngleAxisRotation<I>{Eigen::AngleAxisd{0, Eigen::Vector3d::UnitX()}}; } };
template <typename I> struct Concrete<wave::MatrixRigidTransform<I>> { static auto make() { return wave::MatrixRigidTransform<I>{Eigen::Matrix3d::Identity(), Eigen::Vector3d::Zero()}; } };
template <typename Q, typename V_> struct Concrete<wave::CompactRigidTransform<Q, V_>> { static auto make() { return wave::CompactRigidTransform<Q, V_>{Eigen::Quaterniond{1, 0, 0, 0}, Eigen::Vector3d::Zero()}; } };
template <typename I> struct Concrete<wave::Translation<I>> { static auto make() { return wave::Translation<I>{Eigen::Vector3d::Zero()}; } };
template <typename I> struct Concrete<wave::RelativeRotation<I>> { static auto make() { return wave::RelativeRotation<I>{Eigen::Vector3d::Zero()}; } };
template <typename I> struct Concrete<wave::Twist<I>> { static auto make() { return wave::Twist<I>{Eigen::Matrix<double, 6, 1>::Zero()}; } };
template <typename L, typename... Fr> struct Concrete<wave::Framed<L, Fr...>> { static auto make() { return wave::Framed<L, Fr...>{Concrete<L>::make().value()}; } };
template <typename P> struct Leaf;
template <typename L> struct Leaf<wave::Identity<L>> { using type = L; };
template <typename L> struct Leaf<wave::Zero<L>> { using type = L; };
template <typename P> auto concrete() { return Concrete<typename Leaf<P>::type>::make(); }
/** p.eval() and, for objects, the element they are made into by assignment must be the concrete element */
template <typename P> void alone(const P &z) {
    using L = typename Leaf<P>::type;
    const auto c = Concrete<L>::make();
    gen::close(gen::val(L{z}), gen::val(c), 0, "leaf constructed from a placeholder");
    L y = c; y = z;
    gen::close(gen::val(y), gen::val(c), 0, "leaf assigned from a placeholder");
    gen::close(gen::val(z.eval()), gen::val(c), 0, "placeholder evaluated");
}
/** f applied to the placeholder and to the concrete element, others are the remaining leaves, r the reference */
template <typename P, typename Fn, typename... Ls>
void compare(pbt::Source &s, const ref::Fn &r, const P &z, const Fn &f, const Ls &... ls) {
    const auto c = concrete<P>();
    const auto e = f(z);
    const auto g = f(c);
    rp::VL l{gen::val(ls)..., gen::val(c)};
    const Val want = r(l);
    ref::F vt = 1e-12L * (1 + ref::mag(want)), wt = 1e-9L * (1 + ref::mag(want));
    std::unique_ptr<rp::Ref> wide;
    if (rp::wide()) { wide.reset(new rp::Ref{r, l}); wt = wide->vtol; vt = wt / 5; }
    std::vector<Mat> Jg{gen::mat(g.jacobian(ls))...};
    ref::F m = 0;
    for (auto &j : Jg) m = std::max(m, j.maxabs());
    if (m > 1e6L && !wide) throw pbt::Discard{};
    s.nontrivial();
    gen::close(gen::val(e.eval()), want, wt, "value with the placeholder");
    gen::close(gen::val(e.eval()), gen::val(g.eval()), vt * 10, "value with the placeholder, against the concrete element");
    const ref::F jt = 1e-10L * (1 + m);
    if constexpr (sizeof...(Ls) > 0) {
        auto one = [&](const std::vector<Mat> &J, const char *how) {
            for (size_t i = 0; i < J.size(); ++i) gen::close(J[i], Jg[i], wide ? 2 * wide->jt[i] : jt, std::string("Jacobian by ") + how + " w.r.t. leaf " + std::to_string(i));
        };
        one({gen::mat(e.jacobian(ls))...}, "jacobian()");
        const auto all = e.evalWithJacobians(ls...);
        gen::close(gen::val(std::get<0>(all)), want, wt, "value from evalWithJacobians");
        one(rp::tail(all, std::make_index_sequence<sizeof...(Ls)>{}), "evalWithJacobians()");
        one({gen::mat(wave::internal::evaluateJacobian(e, ls))...}, "forward mode");
        if (wide) {
            for (size_t i = 0; i < Jg.size(); ++i) gen::close(Jg[i], wide->J[i], wide->jt[i], "Jacobian with the concrete element against the reference, leaf " + std::to_string(i));
        } else if (s.below(8) == 0) for (size_t i = 0; i < Jg.size(); ++i)
            gen::close(Jg[i], ref::numJac(r, l, (int) i, rp::H), 1e-7L * (1 + m), "Jacobian with the concrete element against the reference, leaf " + std::to_string(i));
    }
}
}  // namespace ph
