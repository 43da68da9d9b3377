// The operands of an expression, read through lhs() and rhs(): of a temporary they are kept by value, of a named one by reference.
#include "prog.hpp"
using namespace wave;
using gen::val;
template <typename T> static T mk(pbt::Source &s, const char *n) { return rp::tame<T>(s, n); }
FACET("operands of a temporary expression", 1) {
    const Translationd p = mk<Translationd>(s, "p"), q = mk<Translationd>(s, "q");
    const RotationQd r = mk<RotationQd>(s, "r");
    const RigidTransformMd u = mk<RigidTransformMd>(s, "u");
    const double k = s.uniform(-2, 2);
    const auto same = [&](const auto &got, const auto &want, const char *what) { gen::close(val(got), val(want), 1e-12L * (1 + ref::mag(val(want))), what); };
    s.nontrivial();
    switch (s.below(8)) {
        case 0: { auto &&o = (p + Translationd{q} * k).rhs(); same(o.eval(), eval(q * k), "rhs() of p + q*k"); break; }
        case 1: { auto &&o = (Translationd{q} * k + p).lhs(); same(o.eval(), eval(q * k), "lhs() of q*k + p"); break; }
        case 2: { auto &&o = (Translationd{p} - q).lhs(); same(o, p, "lhs() of temporary p - q"); break; }
        case 3: { auto &&o = (r * (p - Translationd{q})).rhs(); same(o.eval(), eval(p - q), "rhs() of r*(p - q)"); auto &&i = (r * (p - Translationd{q})).rhs().rhs(); same(i, q, "rhs().rhs()"); break; }
        case 4: { auto &&o = inverse(u * RigidTransformMd{u}).rhs(); same(o.eval(), eval(u * u), "rhs() of inverse(u*u)"); break; }
        case 5: { auto &&o = inverse(RigidTransformMd{u}).rhs(); same(o, u, "rhs() of inverse(u)"); break; }
        case 6: { auto &&o = (-(p + Translationd{q})).rhs(); same(o.eval(), eval(p + q), "rhs() of -(p+q)"); break; }
        default: {
            const auto e = p + (r * q);
            auto &&a = e.lhs(); auto &&b = e.rhs();
            if ((const void *) &a != (const void *) &p) pbt::fail("lhs() of a named expression is not the operand");
            same(b.eval(), eval(r * q), "rhs() of a named expression");
        }
    }
}
