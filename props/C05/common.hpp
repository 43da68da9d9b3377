#pragma once
#include "gen.hpp"
using namespace gen;
using namespace ref;
using pbt::Source;
template <typename V> struct MakeV;
template <> struct MakeV<wave::Translationd> { using S_ = double; static constexpr F eps = 1e-15L; static wave::Translationd make(Source &s, bool nz) { Opt o; o.nonzero = nz; return leaf<wave::Translationd>(s, o, "v"); } };
template <> struct MakeV<wave::RelativeRotationd> { using S_ = double; static constexpr F eps = 1e-15L; static wave::RelativeRotationd make(Source &s, bool nz) { Opt o; o.nonzero = nz; return leaf<wave::RelativeRotationd>(s, o, "v"); } };
template <> struct MakeV<wave::Twistd> { using S_ = double; static constexpr F eps = 1e-15L; static wave::Twistd make(Source &s, bool nz) { Opt o; o.nonzero = nz; return leaf<wave::Twistd>(s, o, "v"); } };
using TrF = wave::Translation<Eigen::Vector3f>;
template <> struct MakeV<TrF> { using S_ = float; static constexpr F eps = 8e-7L; static TrF make(Source &s, bool nz) { Eigen::Vector3f f = (nz ? nonzero_vec(s) : vec(s)).cast<float>(); return TrF{f}; } };

template <typename Vt>
void vectors(Source &s) {
    using M = MakeV<Vt>; using T = typename M::S_;
    Vt a = M::make(s, true), b = M::make(s, false), c = M::make(s, false);
    T x = (T) nonzero(s), y = (T) number(s, 100);
    wave::Scalar<T> sx{x}, sy{y};
    const Val A = val(a), B = val(b), C = val(c), X = S(x), Y = S(y);
    if (mag(B) > 0 || mag(C) > 0) s.nontrivial();
    const F m = 1 + mag(A) + mag(B) + mag(C), k = 1 + std::fabs((F) x) + std::fabs((F) y) + 1 / std::fabs((F) x);
    const F e1 = 8 * M::eps * m, e2 = 8 * M::eps * m * k, e3 = 60 * M::eps * m * m * k;
    check((a + b).eval(), add(A, B), e1, "a + b");
    check((a - b).eval(), sub(A, B), e1, "a - b");
    check((-a).eval(), neg(A), 0, "-a");
    check((a + b - c).eval(), sub(add(A, B), C), 2 * e1, "a + b - c");
    check((a - (b + c)).eval(), sub(A, add(B, C)), 2 * e1, "a - (b + c)");
    check((-(a - b)).eval(), sub(B, A), e1, "-(a - b)");
    check((x * a).eval(), mul(X, A), e2, "x * a");
    check((a * x).eval(), mul(X, A), e2, "a * x");
    check((a / x).eval(), divi(A, X), e2, "a / x");
    check((sx * a).eval(), mul(X, A), e2, "sx * a");
    check((a * sx).eval(), mul(X, A), e2, "a * sx");
    check((a / sx).eval(), divi(A, X), e2, "a / sx");
    check((T(x) * b).eval(), mul(X, B), e2, "rvalue * b");
    check((b * T(x)).eval(), mul(X, B), e2, "b * rvalue");
    check((b / T(x)).eval(), divi(B, X), e2, "b / rvalue");
    check((x * a + y * b).eval(), add(mul(X, A), mul(Y, B)), e2, "x*a + y*b");
    check((a * sy - b / sx).eval(), sub(mul(Y, A), divi(B, X)), e2, "a*sy - b/sx");
    check(((x * sy) * c).eval(), mul(mul(X, Y), C), e2 * k, "(x*sy)*c");
    check(dot(a, b).eval(), dot(A, B), e3, "dot(a, b)");
    check(a.squaredNorm().eval(), sqn(A), e3, "squaredNorm");
    check(a.norm().eval(), nrm(A), e1 * 2, "norm");
    check(b.norm().eval(), nrm(B), e1 * 2, "norm of any vector");
    check(b.squaredNorm().eval(), sqn(B), e3, "squaredNorm of any vector");
    check(a.normalized().eval(), nrmd(A), 8 * M::eps, "normalized");
    check((a.norm() * a.normalized()).eval(), A, 4 * e1, "norm * normalized");
    check((a / a.norm()).eval(), nrmd(A), 8 * M::eps, "a / norm");
    check((dot(a, b) * c).eval(), mul(dot(A, B), C), e3 * m, "dot(a,b)*c");
    check(dot(a + b, c).eval(), dot(add(A, B), C), 2 * e3, "dot(a + b, c)");
    check((a + b).norm().eval(), nrm(add(A, B)), 4 * e1, "(a + b).norm()");
    check((a - b).squaredNorm().eval(), sqn(sub(A, B)), 4 * e3, "(a - b).squaredNorm()");
    const T d = dot(a, b);
    REQUIRE(std::fabs((F) d - dotf(A, B)) <= e3, "conversion of dot to a number");
}
/** lengths far from one: no threshold may show as long as nothing over- or underflows */
template <typename Vt>
void scales(Source &s) {
    using M = MakeV<Vt>; using T = typename M::S_;
    const int lim = sizeof(T) == 4 ? 30 : 450;
    const Vt u = M::make(s, true);
    const T k = (T) std::ldexp(1.0, (int) s.below(2 * lim) - lim);
    const Vt a{T(k) * u.value()};
    const Val A = val(a);
    const F n = nrm(A).s;
    s.note([&](auto &o) { o << "scale " << k; });
    s.nontrivial();
    auto rel = [&](const auto &got, const Val &want, F scale, const char *what) { check(got, want, 16 * M::eps * scale, what); };
    rel(a.norm().eval(), S(n), n, "norm");
    rel(a.squaredNorm().eval(), S(n * n), n * n, "squared norm");
    rel(dot(a, a).eval(), S(n * n), n * n, "dot");
    rel(a.normalized().eval(), mul(S(1 / n), A), 1, "normalized");
    rel((a / a.norm()).eval(), mul(S(1 / n), A), 1, "a / norm");
    rel((a.norm() * a.normalized()).eval(), A, n, "norm * normalized");
    rel((a + a).eval(), mul(S(2), A), n, "sum");
    rel((a - u).eval(), sub(A, val(u)), n + nrm(val(u)).s, "difference");
    rel((-a).eval(), neg(A), n, "minus");
    rel((a / k).eval(), val(u), nrm(val(u)).s, "a / k");
    rel((T(1 / k) * a).eval(), val(u), nrm(val(u)).s, "1 / k * a");
}
template <typename T>
void scalars(Source &s) {
    T p = (T) nonzero(s), q = (T) number(s, 100), r = (T) nonzero(s, 10);
    const wave::Scalar<T> a{p}, b{q}, c{r};
    const F P = p, Q = q, R = r;
    if (q != 0) s.nontrivial();
    s.note([&](auto &o) { o << p << "," << q << "," << r; });
    const F eps = sizeof(T) == 4 ? 1e-6L : 2e-15L;
    const F m = 1 + std::fabs(P) + std::fabs(Q) + std::fabs(R), inv = 1 + 1 / std::fabs(P) + 1 / std::fabs(R);
    auto ck = [&](auto &&e, F want, F scale, const char *n) {
        const F got = e.eval().value();
        REQUIRE(std::fabs(got - want) <= eps * scale, n, ": got ", (double) got, " want ", (double) want);
        const T num = e;
        REQUIRE(std::fabs((F) num - want) <= eps * scale, n, " converted to a number: got ", num);
    };
    ck(a + b, P + Q, m, "a + b"); ck(a - b, P - Q, m, "a - b"); ck(a * b, P * Q, m * m, "a * b"); ck(b / a, Q / P, m * inv, "b / a");
    ck(-a, -P, m, "-a");
    ck(a + q, P + Q, m, "a + q"); ck(q + a, P + Q, m, "q + a"); ck(a - q, P - Q, m, "a - q"); ck(q - a, Q - P, m, "q - a");
    ck(a * q, P * Q, m * m, "a * q"); ck(q * a, P * Q, m * m, "q * a"); ck(q / a, Q / P, m * inv, "q / a"); ck(b / p, Q / P, m * inv, "b / p");
    ck(a + T(q), P + Q, m, "a + T(q)"); ck(T(q) - a, Q - P, m, "T(q) - a"); ck(T(q) / a, Q / P, m * inv, "T(q) / a"); ck(a * T(q), P * Q, m * m, "a * T(q)");
    ck((a + b) * (a - c), (P + Q) * (P - R), m * m * 4, "(a+b)*(a-c)");
    ck((a * q - r * b) / c, (P * Q - R * Q) / R, 4 * m * m * inv, "(a*q - r*b)/c");
    ck(a / (p * c), 1 / R, inv * 4, "a/(p*c)");
    ck((q - a) - (r - b), Q - P - (R - Q), 4 * m, "(q-a)-(r-b)");
    const T u = (T)(s.below(5) == 0 ? 0 : s.uniform(-0.999, 0.999));
    const wave::Scalar<T> w{u};
    // acos is ill-conditioned towards +-1
    const F wc = std::acos((F) u), cond = 1 / std::sqrt(1 - (F) u * u);
    ck(acos(w), wc, 4 * (1 + cond), "acos(w)");
    // next to the ends of the domain: the argument is exact, so only acos itself rounds
    const T gap = s.below(4) == 0 ? T(0) : (T) std::ldexp(1.0, -(int) s.below(sizeof(T) == 4 ? 24 : 53) - 1);
    const wave::Scalar<T> near1{s.coin() ? 1 - gap : gap - 1};
    const F wn = std::acos((F) near1.value());
    REQUIRE(std::fabs((F) acos(near1).eval().value() - wn) <= 4 * eps * wn, "acos at ", near1.value());
    ck(acos(w * T(0.5)), std::acos((F) u / 2), 8, "acos(w/2)");
    const wave::Scalar<T &> ra{p};
    ck(ra, P, 0, "reference to a number");
    ck(ra * b, P * Q, m * m, "ra * b");
    p = r;
    ck(ra - b, R - Q, m, "reference after change");
    wave::Scalar<T> z;
    z = a * b;
    REQUIRE(std::fabs((F) z.value() - P * Q) <= eps * m * m, "assignment");
    z = q;
    REQUIRE(z.value() == q, "assignment of a number");
}
