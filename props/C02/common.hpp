#pragma once
#include "gen.hpp"
using namespace gen;
using pbt::Source;
using wave::RotationMd; using wave::RotationQd; using wave::RotationAd; using wave::Translationd;
using TM = wave::RigidTransformMd; using TQ = wave::RigidTransformQd;
template <typename T> struct Name;
template <> struct Name<TM> { static constexpr const char *n = "M"; };
template <> struct Name<TQ> { static constexpr const char *n = "Q"; };
inline void mark(Source &s, const ref::Val &v) { if (ref::maxabs(v.R - ref::I3()) > 0 || ref::maxabs(v.v) > 0) s.nontrivial(); }
inline F tol(std::initializer_list<ref::Val> l) { F t = 1; for (auto &v : l) t += ref::norm3(v.v); return 1e-13L * t; }

template <typename A, typename B>
void binary(Source &s) {
    const A a = leaf<A>(s, {}, "a");
    const B b = leaf<B>(s, {}, "b");
    const Translationd t = leaf<Translationd>(s, {}, "t");
    const auto va = val(a), vb = val(b), vt = val(t);
    mark(s, va); mark(s, vb);
    const F e = tol({va, vb, vt});
    const auto ab = ref::mul(va, vb);
    check((a * b).eval(), ab, e, "(a*b).eval()");
    check(TM{a * b}, ab, e, "matrix{a*b}");
    check(TQ{a * b}, ab, e, "quat{a*b}");
    check(A{a * inverse(b)}, ref::mul(va, ref::inv(vb)), e, "a*inverse(b)");
    check((inverse(a) * b).eval(), ref::mul(ref::inv(va), vb), e, "inverse(a)*b");
    check((a * b * t).eval(), ref::mul(ab, vt), e, "(a*b)*t");
    check((a * (b * t)).eval(), ref::mul(ab, vt), e, "a*(b*t)");
    check(inverse(a * b).eval(), ref::inv(ab), e, "inverse(a*b)");
    check((inverse(b) * inverse(a) * (a * b)).eval(), ref::Tf(ref::I3(), ref::V3{}), 4 * e, "inverse(b)*inverse(a)*(a*b)");
    check((a * b).rotation().eval(), ref::rot(ab), e, "(a*b).rotation()");
    check((a * b).translation().eval(), ref::trans(ab), e, "(a*b).translation()");
    B c{a};
    check(c, va, e, "conversion");
    c = inverse(a);
    check(c, ref::inv(va), e, "assignment of an expression");
    A back{c};
    check(back, ref::inv(va), e, "conversion back");
}
template <typename A>
void unary(Source &s) {
    A a = leaf<A>(s, {}, "a");
    const Translationd t = leaf<Translationd>(s, {}, "t");
    const auto va = val(a), vt = val(t);
    mark(s, va);
    const F e = tol({va, vt});
    check(inverse(a).eval(), ref::inv(va), e, "inverse");
    check(inverse(inverse(a)).eval(), va, e, "inverse(inverse)");
    check((a * t).eval(), ref::mul(va, vt), e, "a*t");
    check((inverse(a) * t).eval(), ref::mul(ref::inv(va), vt), e, "inverse(a)*t");
    check((a.rotation() * t + a.translation()).eval(), ref::mul(va, vt), e, "R*t + p");
    check((inverse(a) * (a * t)).eval(), vt, 4 * e, "inverse(a)*(a*t)");
    check(a.rotation().eval(), ref::rot(va), 1e-15L, "rotation()");
    check(a.translation().eval(), ref::trans(va), 0, "translation()");
    check(inverse(a).rotation().eval(), ref::inv(ref::rot(va)), 1e-13L, "inverse(a).rotation()");
    check((a.rotation() * t).eval(), ref::mul(ref::rot(va), vt), e, "a.rotation()*t");
    check((inverse(a.rotation()) * (t - a.translation())).eval(), ref::mul(ref::inv(va), vt), e, "R^-1 (t - p)");
    // self assignment through an expression
    A c = a;
    c = inverse(c);
    check(c, ref::inv(va), e, "c = inverse(c)");
    c = c * a;
    check(c, ref::Tf(ref::I3(), ref::V3{}), 4 * e, "c = inverse(a) * a");
    c = a * a;
    check(c, ref::mul(va, va), e, "c = a*a");
}
template <typename A, typename R>
void construct(Source &s) {
    const R r = leaf<R>(s, {}, "r");
    const Translationd t = leaf<Translationd>(s, {}, "t");
    const Translationd p = leaf<Translationd>(s, {}, "p");
    const auto want = ref::Tf(val(r).R, val(t).v);
    mark(s, want);
    const F e = tol({val(t), val(p)});
    const A a{r, t};
    check(a, want, e, "construction from rotation and translation");
    check(A{inverse(r), r * t}, ref::Tf(ref::inv(val(r)).R, ref::mul(val(r), val(t)).v), e, "construction from expressions");
    check((a * p).eval(), ref::mul(want, val(p)), e, "transform");
    check((r * (a * p)).eval(), ref::mul(val(r), ref::mul(want, val(p))), e, "r*(a*p)");
    check((inverse(r) * a.translation()).eval(), ref::mul(ref::inv(val(r)), val(t)), e, "inverse(r)*a.translation()");
    check(RotationMd{inverse(r) * a.rotation()}, ref::Ro(ref::I3()), 4e-13L, "inverse(r)*a.rotation()");
}
#define BIN(X, Y) static pbt::Register PBT_CAT(r, __LINE__){std::string("binary ") + Name<X>::n + Name<Y>::n, 2, binary<X, Y>};
#define UN(X) static pbt::Register PBT_CAT(r, __LINE__){std::string("unary ") + Name<X>::n, 2, unary<X>};
#define CT(X, R) static pbt::Register PBT_CAT(r, __LINE__){std::string("construct ") + Name<X>::n + " " #R, 1, construct<X, R>};
