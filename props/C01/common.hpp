#pragma once
#include "gen.hpp"
using namespace gen;
using pbt::Source;
using wave::RotationMd; using wave::RotationQd; using wave::RotationAd; using wave::Translationd;
template <typename T> struct Name;
template <> struct Name<RotationMd> { static constexpr const char *n = "M"; };
template <> struct Name<RotationQd> { static constexpr const char *n = "Q"; };
template <> struct Name<RotationAd> { static constexpr const char *n = "A"; };
inline void mark(Source &s, const ref::Val &v) { if (ref::maxabs(v.R - ref::I3()) > 0) s.nontrivial(); }
constexpr F TOL = 1e-13L;
inline F vtol(const ref::Val &v) { return TOL * (1 + ref::norm3(v.v)); }

template <typename A, typename B>
void binary(Source &s) {
    const A a = leaf<A>(s, {}, "a");
    const B b = leaf<B>(s, {}, "b");
    const auto va = val(a), vb = val(b);
    mark(s, va); mark(s, vb);
    const auto ab = ref::mul(va, vb);
    check((a * b).eval(), ab, TOL, "(a*b).eval()");
    check(RotationMd{a * b}, ab, TOL, "RotationMd{a*b}");
    RotationQd q{a * b};
    check(q, ab, TOL, "RotationQd{a*b}");
    check(RotationMd{a * inverse(b)}, ref::mul(va, ref::inv(vb)), TOL, "a*inverse(b)");
    check(RotationMd{inverse(a * b)}, ref::inv(ab), TOL, "inverse(a*b)");
    check((inverse(a) * b).eval(), ref::mul(ref::inv(va), vb), TOL, "inverse(a)*b");
    const Translationd t = leaf<Translationd>(s, {}, "t");
    check((a * b * t).eval(), ref::mul(ab, val(t)), vtol(val(t)), "(a*b)*t");
    check((a * (b * t)).eval(), ref::mul(ab, val(t)), vtol(val(t)), "a*(b*t)");
    // a group: the inverse of a product composes back to the identity
    check(RotationMd{inverse(b) * inverse(a) * (a * b)}, ref::Ro(ref::I3()), 2 * TOL, "inverse(b)*inverse(a)*(a*b)");
}
template <typename A, typename B>
void convert(Source &s) {
    const A a = leaf<A>(s, {}, "a");
    mark(s, val(a));
    const B b{a};
    check(b, val(a), TOL, "conversion");
    B c;
    c = a;
    check(c, val(a), TOL, "assignment");
    const A back{b};
    check(back, val(a), TOL, "conversion there and back");
    check(B{inverse(a)}, ref::inv(val(a)), TOL, "conversion of an expression");
}
template <typename A>
void unary(Source &s) {
    const A a = leaf<A>(s, {}, "a");
    const Translationd t = leaf<Translationd>(s, {}, "t");
    mark(s, val(a));
    check(a.eval(), val(a), 1e-16L, "eval of a leaf");
    check(inverse(a).eval(), ref::inv(val(a)), TOL, "inverse");
    check(inverse(inverse(a)).eval(), val(a), TOL, "inverse(inverse)");
    const auto at = (a * t).eval();
    check(at, ref::mul(val(a), val(t)), vtol(val(t)), "a*t");
    F n0 = ref::norm3(val(t).v), n1 = ref::norm3(val(at).v);
    REQUIRE(std::fabs(n0 - n1) <= TOL * (1 + n0), "rotation changes the length of a vector from ", (double) n0, " to ", (double) n1);
    check((inverse(a) * (a * t)).eval(), val(t), 2 * vtol(val(t)), "inverse(a)*(a*t)");
    check(a.rotation().eval(), val(a), 1e-16L, "rotation() of a rotation");
}
#define BIN(X, Y) static pbt::Register PBT_CAT(r, __LINE__){std::string("compose ") + Name<X>::n + Name<Y>::n, 1, binary<X, Y>};
#define CON(X, Y) static pbt::Register PBT_CAT(r, __LINE__){std::string("convert ") + Name<X>::n + Name<Y>::n, 1, convert<X, Y>};
#define UN(X) static pbt::Register PBT_CAT(r, __LINE__){std::string("unary ") + Name<X>::n, 1, unary<X>};
