// Support for generated expression programs: reference operations restricted to their regular
// domain (a case that leaves it is discarded), leaf options, and the comparison of a library
// expression with its reference program.
#pragma once
#include "trace.hpp"
namespace rp {
using ref::F; using ref::Val; using ref::Mat;
using VL = std::vector<Val>;
[[noreturn]] inline void off() { throw pbt::Discard{}; }
inline Val ok(Val v) {
    if (!(ref::mag(v) < (wide() ? 1e30L : 1e4L))) off();
    return v;
}
#define RP_OP1(name, fn, kind) inline Val name(const Val &a) { return ok(rec([](const Val &x, const Val &) { return fn(x); }, kind, a)); }
#define RP_OP2(name, fn, kind) inline Val name(const Val &a, const Val &b) { return ok(rec([](const Val &x, const Val &y) { return fn(x, y); }, kind, a, &b)); }
RP_OP2(mul, ref::mul, LINEAR)
RP_OP1(inv, ref::inv, LINEAR)
inline Val exp(const Val &a) {
    const F t = ref::norm3(a.v);
    if (wide() ? t > 1e6L : t > 100 || (t > 1e-10L && t < 1e-4L)) off();   // exp Jacobian is less accurate there: C06
    return ok(rec([](const Val &x, const Val &) { return ref::exp(x); }, EXP, a));
}
inline Val log(const Val &a) {
    if (ref::norm3(ref::logSO3(a.R)) > (wide() ? 3.1L : 3.0L)) off();
    return ok(rec([](const Val &x, const Val &) { return ref::log(x); }, LOG, a));
}
RP_OP1(neg, ref::neg, LINEAR)
RP_OP2(sum, ref::add, LINEAR)
RP_OP2(difference, ref::sub, LINEAR)
inline Val add(const Val &a, const Val &b) { return (a.k == ref::ROT || a.k == ref::RT) ? rp::mul(rp::exp(b), a) : sum(a, b); }
inline Val sub(const Val &a, const Val &b) { return (a.k == ref::ROT || a.k == ref::RT) ? rp::log(rp::mul(a, rp::inv(b))) : difference(a, b); }
inline Val divi(const Val &a, const Val &b) {
    if (std::fabs(b.s) < (wide() ? 1e-30L : 0.1L)) off();
    return ok(rec([](const Val &x, const Val &y) { return ref::divi(x, y); }, OUT, a, &b));
}
RP_OP2(dot, ref::dot, DOT)
RP_OP1(sqn, ref::sqn, OUT)
inline Val nrm(const Val &a) {
    if (ref::dotf(a, a) < (wide() ? 1e-60L : 0.01L)) off();
    return ok(rec([](const Val &x, const Val &) { return ref::nrm(x); }, OUT, a));
}
inline Val nrmd(const Val &a) { return rp::divi(a, rp::nrm(a)); }
inline Val acosv(const Val &a) {
    if (std::fabs(a.s) > 0.95L) off();
    return rec([](const Val &x, const Val &) { return ref::acosv(x); }, ACOS, a);
}
RP_OP1(rot, ref::rot, LINEAR)
RP_OP1(trans, ref::trans, LINEAR)
using ref::S;

constexpr F H = 4e-6L;
template <typename T> T tame(pbt::Source &s, const char *name) {
    gen::Opt o; o.ang = gen::TAME; o.tmax = 10; o.smax = 3; o.nonzero = s.below(8) != 0;
    if (wide()) { o.ang = gen::PRINCIPAL; o.tmax = 1000; o.smax = 100; }
    return gen::leaf<T>(s, o, name);
}
inline double tameNum(pbt::Source &s, const char *name) {
    const double d = gen::nonzero(s, wide() ? 100 : 3);
    s.note([&](auto &os) { os << name << "=" << d; });
    return d;
}
/** a scalar in (-0.9, 0.9) */
inline wave::Scalar<double> tameUnit(pbt::Source &s, const char *name) {
    const double d = s.uniform(-0.9, 0.9);
    s.note([&](auto &os) { os << name << "=" << d; });
    return wave::Scalar<double>{d};
}
inline F valTol(const Val &want) { return 1e-9L * (1 + ref::mag(want)); }
inline F jacTol(const std::vector<Mat> &J) {
    F m = 0;
    for (auto &j : J) m = std::max(m, j.maxabs());
    if (m > 1e5L) throw pbt::Discard{};
    return 1e-7L * (1 + m);
}
/** reference value and Jacobians, with tolerances (jtol: the largest of jt) */
struct Ref {
    ref::Fn f; VL l;
    Val value; std::vector<Mat> J; F vtol, jtol; std::vector<F> jt;
    Ref(const ref::Fn &f_, const VL &l_) : f{f_}, l{l_} {
        if (wide()) {
            Traced t{f, l};
            value = t.value; J = t.J;
            vtol = 40 * t.dv + 1e-14L * ref::mag(value);
            if (!(vtol <= 1e-6L * (ref::mag(value) + 1e-3L))) off();   // rounding may have eaten the result
            jtol = 0;
            for (size_t i = 0; i < J.size(); ++i) {
                jt.push_back(40 * t.dj[i] + 2e-13L * J[i].maxabs());
                if (!(jt[i] <= 1e-4L * J[i].maxabs()) && jt[i] > 0) off();
                jtol = std::max(jtol, jt[i]);
            }
            return;
        }
        value = f(l);
        vtol = valTol(value);
        for (size_t i = 0; i < l.size(); ++i) J.push_back(ref::numJac(f, l, (int) i, H));
        jtol = jacTol(J);
        jt.assign(J.size(), jtol);
    }
};
/** all Jacobians of e by one of the ways the public interface offers, as reference matrices */
template <typename E, typename... Ls>
std::vector<Mat> each(const E &e, const Ls &... ls) { return {gen::mat(e.jacobian(ls))...}; }
template <typename Tuple, size_t... I>
std::vector<Mat> tail(const Tuple &t, std::index_sequence<I...>) { return {gen::mat(std::get<I + 1>(t))...}; }
template <typename E, typename... Ls>
std::vector<Mat> together(const E &e, const Ls &... ls) {
    return tail(e.evalWithJacobians(ls...), std::make_index_sequence<sizeof...(Ls)>{});
}
inline void same(const std::vector<Mat> &got, const std::vector<Mat> &want, F tol, const char *how) {
    for (size_t i = 0; i < want.size(); ++i)
        gen::close(got[i], want[i], tol, std::string("Jacobian by ") + how + " w.r.t. leaf " + std::to_string(i));
}
/** as above, but a mismatch at a point where the reference's differences do not converge to the tolerance (close to a
 * singular point, e.g. a short vector being normalised) is not held against the library */
inline void same(const std::vector<Mat> &got, const Ref &r, const char *how) {
    for (size_t i = 0; i < r.J.size(); ++i) {
        bool ok = got[i].r == r.J[i].r && got[i].c == r.J[i].c;
        for (int a = 0; ok && a < got[i].r; ++a) for (int b = 0; b < got[i].c; ++b) ok = ok && std::fabs(got[i](a, b) - r.J[i](a, b)) <= r.jt[i];
        if (ok) continue;
        if (wide()) gen::close(got[i], r.J[i], r.jt[i], std::string("Jacobian by ") + how + " w.r.t. leaf " + std::to_string(i));
        const Mat other = ref::numJac(r.f, r.l, (int) i, 5 * H);
        for (int a = 0; a < other.r; ++a) for (int b = 0; b < other.c; ++b) if (!(std::fabs(other(a, b) - r.J[i](a, b)) <= r.jt[i] / 2)) throw pbt::Discard{};
        gen::close(got[i], r.J[i], r.jt[i], std::string("Jacobian by ") + how + " w.r.t. leaf " + std::to_string(i));
    }
}
/** checks value and all Jacobians of e against the reference */
template <typename E, typename... Ls>
void compare(pbt::Source &s, const E &e, const ref::Fn &f, const Ls &... ls) {
    const VL l{gen::val(ls)...};
    const Ref r{f, l};
    s.nontrivial();
    gen::check(e.eval(), r.value, r.vtol, "value");
    same(each(e, ls...), r, "jacobian()");
    gen::check(std::get<0>(e.evalWithJacobians(ls...)), r.value, r.vtol, "value from evalWithJacobians");
    same(together(e, ls...), r, "evalWithJacobians(...)");
}
/** a leaf that does not occur in e. (In a tree of unique leaf types leaves are told apart by type; in other trees
 * an object whose type does not occur is rejected at compile time.) */
template <typename E, typename X>
void foreign(const E &e, const X &x) {
    if constexpr (wave::internal::unique_leaves_t<E>::value != wave::internal::contains_same_type<E, X>::value) {
        const Mat m = gen::mat(e.jacobian(x));
        if (m.maxabs() != 0) pbt::fail("Jacobian w.r.t. a leaf that does not occur: ", m);
    }
}
}  // namespace rp
