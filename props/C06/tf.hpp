#pragma once
#include "common.hpp"
template <typename X> void tf1(Source &s) {
    Opt o; o.tmax = 100;
    switch (s.below(5)) {
        case 0: op1<X>(s, o, "inverse(x)", LAM1(inverse(x)), [](const Val &x) { return ref::inv(x); }, [](const Val &x) { return 1e-13L * scl({x}); }); break;
        case 1: op1<X>(s, o, "x.rotation()", LAM1(x.rotation()), [](const Val &x) { return ref::rot(x); }, [](const Val &) { return 1e-13L; }); break;
        case 2: op1<X>(s, o, "x.translation()", LAM1(x.translation()), [](const Val &x) { return ref::trans(x); }, [](const Val &x) { return 1e-13L * scl({x}); }); break;
        case 3: logj<X>(s); break;
        default: op2<X, Translationd>(s, o, "x * v", LAM2(x * y), [](const Val &x, const Val &y) { return ref::mul(x, y); },
                     [](const Val &x, const Val &y) { return 1e-13L * scl({x, y}); });
    }
}
template <typename X> void tfplus(Source &s) {
    Opt o; o.tmax = 100; o.ang = gen::ANY;
    op2<X, Twistd>(s, o, "x + v", LAM2(x + y), [](const Val &x, const Val &y) { return ref::add(x, y); },
            [](const Val &x, const Val &y) { return expTol(y) * scl({x, y}) * scl({y}); });
}
template <typename X, typename Y> void tf2(Source &s) {
    Opt o; o.tmax = 100;
    if (s.coin()) boxminus<X, Y>(s);
    else op2<X, Y>(s, o, "x * y", LAM2(x * y), [](const Val &x, const Val &y) { return ref::mul(x, y); }, [](const Val &x, const Val &y) { return 1e-13L * scl({x, y}); });
}
