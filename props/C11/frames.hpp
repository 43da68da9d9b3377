#pragma once
#include "modes.hpp"
namespace rp {
/** framed expression e against the unframed expression u */
template <typename E, typename U, typename FL, typename UL, size_t... I>
void unaffected(const E &e, const U &u, const FL &fl, const UL &ul, std::index_sequence<I...>) {
    const Val a = gen::val(e.eval()), b = gen::val(u.eval());
    gen::close(a, b, 1e-13L * (1 + ref::mag(b)), "value with and without frames");
    const std::vector<Mat> J{gen::mat(e.jacobian(std::get<I>(fl)))...}, K{gen::mat(u.jacobian(std::get<I>(ul)))...};
    agree(J, K, "jacobian(x) with and without frames");
    agree(tail(e.evalWithJacobians(std::get<I>(fl)...), std::make_index_sequence<sizeof...(I)>{}), K, "evalWithJacobians(...) with and without frames");
}
}  // namespace rp
