#include "common.hpp"
FACET("points", 1) {
    const auto p = leaf<wave::Pointd>(s, {}, "p"), q = leaf<wave::Pointd>(s, {}, "q");
    const auto v = leaf<wave::Translationd>(s, {}, "v");
    double x = number(s, 10);
    const Val P = val(p), Q = val(q), W = val(v);
    if (mag(P) + mag(W) > 0) s.nontrivial();
    const F e = 1e-14L * (1 + mag(P) + mag(Q) + mag(W)) * (1 + std::fabs((F) x));
    check((p + v).eval(), add(P, W), e, "p + v");
    check((v + p).eval(), add(P, W), e, "v + p");
    check((p - q).eval(), sub(P, Q), e, "p - q");
    check((p - v).eval(), sub(P, W), e, "p - v");
    check((p + x * (q - p)).eval(), add(P, mul(S(x), sub(Q, P))), e, "p + x*(q - p)");
    check((p + v + v).eval(), add(add(P, W), W), e, "p + v + v");
    check((p + (v - v)).eval(), P, e, "p + (v - v)");
    check((p - q).norm().eval(), nrm(sub(P, Q)), e, "distance");
    check((p - (v + v)).eval(), sub(sub(P, W), W), e, "p - (v + v)");
    wave::Pointd r;
    r = p + v;
    check(r, add(P, W), e, "assignment");
}
