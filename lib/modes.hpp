// Evaluates one expression in all automatic-differentiation modes and compares them.
#pragma once
#include "prog.hpp"
#include <memory>
namespace rp {
template <typename Tuple> using Idx = std::make_index_sequence<std::tuple_size<Tuple>::value - 1>;
inline void agree(const std::vector<Mat> &got, const std::vector<Mat> &want, const char *mode, const Ref *r = nullptr) {
    if (got.size() != want.size()) pbt::fail(mode, ": number of Jacobians");
    if (r) {
        for (size_t i = 0; i < want.size(); ++i)
            gen::close(got[i], want[i], 2 * r->jt[i], std::string(mode) + " vs forward mode, leaf " + std::to_string(i));
        return;
    }
    F m = 0;
    for (auto &j : want) m = std::max(m, j.maxabs());
    for (size_t i = 0; i < want.size(); ++i)
        gen::close(got[i], want[i], 1e-11L * (1 + m), std::string(mode) + " vs forward mode, leaf " + std::to_string(i));
}
template <typename E, typename Tuple, size_t... I>
std::vector<Mat> backwards(const E &e, const Tuple &t, std::index_sequence<I...>) {
    constexpr size_t N = sizeof...(I);
    auto m = tail(e.evalWithJacobians(std::get<N - 1 - I>(t)...), std::make_index_sequence<N>{});
    std::reverse(m.begin(), m.end());
    return m;
}
/** every mode on e; ls are its leaves in order of their first appearance, each used once if the tree has unique leaf types */
template <bool ReverseOrder, typename E, typename... Ls>
void modes(pbt::Source &s, const E &e, const ref::Fn &f, const Ls &... ls) {
    namespace wi = wave::internal;
    constexpr size_t N = sizeof...(Ls);
    const VL l{gen::val(ls)...};
    const Val v = f(l);
    const auto fw = wi::evaluateWithJacobians(e, ls...);
    const std::vector<Mat> J = tail(fw, std::make_index_sequence<N>{});
    F m = 0;
    for (auto &j : J) m = std::max(m, j.maxabs());
    if (m > 1e7L && !wide()) throw pbt::Discard{};
    std::unique_ptr<Ref> wideRef;
    if (wide()) wideRef.reset(new Ref(f, l));
    const F tol = wideRef ? wideRef->vtol : valTol(v);
    s.nontrivial();
    const Val fv = gen::val(std::get<0>(fw));
    gen::close(fv, v, tol, "value in forward mode");
    if (wideRef) same(J, *wideRef, "forward mode");
    else if (s.below(8) == 0) {
        const Ref r{f, l};
        s.label("reference derivative");
        same(J, r, "forward mode");
    }
    auto value = [&](const auto &x, const char *mode) { gen::close(gen::val(x), fv, wideRef ? 2 * tol : 1e-12L * (1 + ref::mag(fv)), std::string("value in ") + mode); };
    value(e.eval(), "eval()");
    auto dyn = wi::evaluateWithDynamicJacobians(e, ls...);
    value(std::get<0>(dyn), "dynamic mode");
    agree(tail(dyn, std::make_index_sequence<N>{}), J, "dynamic mode", wideRef.get());
    agree({gen::mat(wi::evaluateJacobian(e, ls))...}, J, "forward mode, one by one", wideRef.get());
    agree({gen::mat(wi::evaluateDynamicJacobian(e, ls))...}, J, "dynamic mode, one by one", wideRef.get());
    {
        const auto r = wi::evaluateWithDynamicReverseJacobians(e);
        value(r.first, "dynamic reverse mode");
        ((r.second.count(&ls) == 1 ? void() : pbt::fail("dynamic reverse mode: a leaf is missing")), ...);
        agree({gen::mat(r.second.at(&ls))...}, J, "dynamic reverse mode", wideRef.get());
        const int dummy = 0;
        if (r.second.count(&dummy)) pbt::fail("dynamic reverse mode: a Jacobian for an unknown leaf");
    }
    auto pub = e.evalWithJacobians(ls...);
    value(std::get<0>(pub), "automatic mode");
    agree(tail(pub, std::make_index_sequence<N>{}), J, "evalWithJacobians(...)", wideRef.get());
    agree({gen::mat(e.jacobian(ls))...}, J, "jacobian(x)", wideRef.get());
    agree(backwards(e, std::tie(ls...), std::make_index_sequence<N>{}), J, "evalWithJacobians(...) in the opposite order", wideRef.get());
    if constexpr (wi::unique_leaves_t<E>::value) {
        auto ty = wi::evaluateWithTypedJacobians(e, ls...);
        value(std::get<0>(ty), "typed mode");
        agree(tail(ty, std::make_index_sequence<N>{}), J, "typed mode", wideRef.get());
        if constexpr (ReverseOrder) {
            auto rv = e.evalWithJacobians();
            static_assert(std::tuple_size<decltype(rv)>::value == N + 1, "reverse mode returns one Jacobian per leaf");
            value(std::get<0>(rv), "reverse mode");
            agree(tail(rv, std::make_index_sequence<N>{}), J, "reverse mode", wideRef.get());
        }
    }
}
}  // namespace rp
