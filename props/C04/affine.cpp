#include "common.hpp"
using wave::Pointd;
template <typename P, typename V>
static void affine(Source &s) {
    const P p = leaf<P>(s, {}, "p"), q = leaf<P>(s, {}, "q");
    const V v = leaf<V>(s, {}, "v");
    const auto P_ = val(p), Q = val(q), W = val(v);
    if (ref::dist(P_, Q) > 0) s.nontrivial();
    const F e = 1e-15L * (1 + 4 * (ref::mag(P_) + ref::mag(Q) + ref::mag(W)));
    check((p + v).eval(), ref::add(P_, W), e, "p + v");
    check((v + p).eval(), ref::add(P_, W), e, "v + p");
    check((p - q).eval(), ref::sub(P_, Q), e, "p - q");
    check((q + (p - q)).eval(), P_, 4 * e, "q + (p - q)");
    check(((p + v) - p).eval(), W, 4 * e, "(p + v) - p");
    check((p - p).eval(), ref::sub(P_, P_), 0, "p - p");
}
static pbt::Register r1{"laws point", 0.5, affine<Pointd, Translationd>};
static pbt::Register r2{"laws translation", 0.5, affine<Translationd, Translationd>};
static pbt::Register r3{"laws relative rotation", 0.5, affine<RelativeRotationd, RelativeRotationd>};
static pbt::Register r4{"laws twist", 0.5, affine<Twistd, Twistd>};
FACET("point minus vector", 0.5) {
    const Pointd p = leaf<Pointd>(s, {}, "p");
    const Translationd v = leaf<Translationd>(s, {}, "v");
    s.nontrivial();
    const F e = 1e-15L * (1 + 4 * (ref::mag(val(p)) + ref::mag(val(v))));
    check((p - v).eval(), ref::sub(val(p), val(v)), e, "p - v");
    check(((p - v) + v).eval(), val(p), 4 * e, "(p - v) + v");
}
