#pragma once
#include "common.hpp"
template <typename X> void rot1(Source &s) {
    Opt o;
    switch (s.below(3)) {
        case 0: op1<X>(s, o, "inverse(x)", LAM1(inverse(x)), [](const Val &x) { return ref::inv(x); }, [](const Val &) { return 1e-13L; }); break;
        case 1: logj<X>(s); break;
        default: op2<X, Translationd>(s, o, "x * v", LAM2(x * y), [](const Val &x, const Val &y) { return ref::mul(x, y); },
                     [](const Val &x, const Val &y) { return 1e-13L * scl({y}); });
    }
}
template <typename X> void rotplus(Source &s) {
    Opt o; o.ang = gen::ANY;
    op2<X, RelativeRotationd>(s, o, "x + v", LAM2(x + y), [](const Val &x, const Val &y) { return ref::add(x, y); },
            [](const Val &, const Val &y) { return expTol(y) * scl({y}); });
}
template <typename X, typename Y> void rot2(Source &s) {
    Opt o;
    if (s.coin()) boxminus<X, Y>(s);
    else op2<X, Y>(s, o, "x * y", LAM2(x * y), [](const Val &x, const Val &y) { return ref::mul(x, y); }, [](const Val &, const Val &) { return 1e-13L; });
}
