// Uses of the library that lean on storage, alignment and lifetimes, to be run under every build configuration
#include <deque>
#include <memory>
#include "odd.hpp"
#include "reps.hpp"
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/estimation.hpp"
using namespace wave;
using rp::F;
using rp::Val;
using rp::VL;
namespace {
// overwrites the part of the stack which a finished function call used
__attribute__((noinline)) void clobber() {
    volatile double junk[512];
    for (auto &x : junk) x = 1e300;
}
template <typename E> void check(const E &e, const Val &want, const char *how) {
    clobber();
    gen::close(gen::val(e.eval()), want, rp::valTol(want), how);
}
/** a history of operations on a container of leaves */
template <typename Leaf, typename C> void container(pbt::Source &s) {
    C c;
    std::vector<Val> m;
    const size_t steps = 2 + s.below(12);
    for (size_t k = 0; k < steps; ++k) {
        const auto x = rp::tame<Leaf>(s, "x");
        switch (m.empty() ? 0 : s.below(5)) {
            case 0: c.push_back(x), m.push_back(gen::val(x)); break;
            case 1: { auto i = s.below(m.size()); c.insert(c.begin() + i, x), m.insert(m.begin() + i, gen::val(x)); break; }
            case 2: { auto i = s.below(m.size()); c.erase(c.begin() + i), m.erase(m.begin() + i); break; }
            case 3: { auto i = s.below(m.size()); c[i] = x, m[i] = gen::val(x); break; }
            default: { auto i = s.below(m.size()), j = s.below(m.size()); std::swap(c[i], c[j]), std::swap(m[i], m[j]); }
        }
        C d = c;
        c = std::move(d);
    }
    for (size_t i = 0; i < m.size(); ++i) gen::close(gen::val(c[i]), m[i], 0, "a leaf in a container");
    s.nontrivial();
}
template <typename R> __attribute__((noinline)) auto local(const R &r, const Eigen::Vector3d &v) { return r * (Translationd{v} + Translationd{2 * v}); }
template <typename R> __attribute__((noinline)) auto nested(R r, const RelativeRotationd &w) { return inverse(std::move(r)) * exp(w) * RotationQd{Eigen::Quaterniond{0, 1, 0, 0}}; }
template <typename R> void lifetimes(pbt::Source &s) {
    const auto r = rp::tame<R>(s, "r");
    const auto w = rp::tame<RelativeRotationd>(s, "w");
    const auto p = rp::tame<Translationd>(s, "p");
    const Val vr = gen::val(r), vw = gen::val(w), vp = gen::val(p);
    const Val turn = gen::val(RotationQd{Eigen::Quaterniond{0, 1, 0, 0}});
    check(local(r, p.value()), rp::mul(vr, rp::add(vp, rp::mul(rp::S(2), vp))), "an expression returned with temporary leaves");
    const Val n = rp::mul(rp::mul(rp::inv(vr), rp::exp(vw)), turn);
    check(nested(r, w), n, "an expression returned with moved leaves");
    auto up = std::make_unique<decltype(nested(r, w))>(nested(r, w));
    auto copy = *up;
    auto moved = std::move(*up);
    up.reset();
    check(copy, n, "a copy of an expression");
    check(moved, n, "a moved expression");
    const auto proxy = [&] { return makeProxy(nested(r, w) * p); }();
    const Val np = rp::mul(n, vp);
    check(proxy, np, "a proxy");
    auto proxy2 = proxy;
    check(proxy2 + p, rp::add(np, vp), "a copied proxy");
    Proxy<Translationd> other{proxy2 - p};
    check(other, rp::sub(np, vp), "a proxy of a proxy");
    s.nontrivial();
}
void oddAddresses(pbt::Source &s) {
    const auto q = rp::tame<RotationQd>(s, "q");
    const auto m = rp::tame<RotationMd>(s, "m");
    const auto t = rp::tame<RigidTransformMd>(s, "t");
    const auto p = rp::tame<Translationd>(s, "p");
    const auto x = rp::tame<Twistd>(s, "x");
    const ::odd::Held<RotationQd> hq(s, q);
    const ::odd::Held<RotationMd> hm(s, m);
    const ::odd::Held<RigidTransformMd> ht(s, t);
    const ::odd::Held<Translationd> hp(s, p);
    const ::odd::Held<Twistd> hx(s, x);
    const auto &lq = hq.leaf; const auto &lm = hm.leaf; const auto &lt = ht.leaf; const auto &lp = hp.leaf; const auto &lx = hx.leaf;
    const Val vq = gen::val(q), vm = gen::val(m), vt = gen::val(t), vp = gen::val(p), vx = gen::val(x);
    auto fn = [&](const VL &l) { return rp::mul(rp::mul(rp::add(l[2], l[4]), rp::inv(l[2])), rp::mul(rp::inv(l[0]), rp::mul(l[1], l[3]))); };
    const Val want = fn({vq, vm, vt, vp, vx});
    const auto e = ((lt + lx) * inverse(lt)) * (inverse(lq) * (lm * lp));
    check(e, want, "leaves at odd addresses");
    check(lq * q, rp::mul(vq, vq), "quaternion * quaternion at odd addresses");
    check(lq * lq * lm, rp::mul(rp::mul(vq, vq), vm), "quaternion * matrix at odd addresses");
    check(lq - lm, rp::sub(vq, vm), "difference at odd addresses");
    check(lm * lm - lq, rp::sub(rp::mul(vm, vm), vq), "difference at odd addresses");
    check(lt * lt, rp::mul(vt, vt), "transforms at odd addresses");
    check(lt.rotation() * lq, rp::mul(rp::rot(vt), vq), "parts at odd addresses");
    const auto own = ((t + x) * inverse(t)) * (inverse(q) * (m * p));
    const auto a = rp::each(e, lq, lm, lt, lp, lx), b = rp::each(own, q, m, t, p, x);
    for (size_t i = 0; i < a.size(); ++i) gen::close(a[i], b[i], 1e-11L * (1 + b[i].maxabs()), "Jacobian with leaves at odd addresses");
    s.nontrivial();
}
// an object at an offset which only its own alignment determines
template <typename L> struct Packed { char c; L leaf; char d; };
void dynamic(pbt::Source &s) {
    const auto q = rp::tame<RotationQd>(s, "q");
    const auto t = rp::tame<RigidTransformMd>(s, "t");
    const auto u = rp::tame<RigidTransformQd>(s, "u");
    const auto p = rp::tame<Translationd>(s, "p");
    const auto d = [&] { return makeProxy(q * (t * (u * p))); }();
    const auto i = [&] { return makeProxy(inverse(u * t)); }();
    const auto e = i * (inverse(q) * d);
    const Val vq = gen::val(q), vt = gen::val(t), vu = gen::val(u), vp = gen::val(p);
    auto fn = [](const VL &l) { return rp::mul(rp::inv(rp::mul(l[2], l[1])), rp::mul(rp::inv(l[0]), rp::mul(l[0], rp::mul(l[1], rp::mul(l[2], l[3]))))); };
    const VL l{vq, vt, vu, vp};
    check(e, fn(l), "proxies");
    const auto packed = std::make_unique<Packed<RotationQd>>(Packed<RotationQd>{1, q, 2});
    const auto packt = std::make_unique<Packed<RigidTransformMd>>(Packed<RigidTransformMd>{1, t, 2});
    const auto g = packed->leaf * (packt->leaf * p);
    const auto J = rp::each(g, packed->leaf, packt->leaf, p);
    const auto K = rp::each(q * (t * p), q, t, p);
    for (size_t k = 0; k < J.size(); ++k) gen::close(J[k], K[k], 1e-12L * (1 + K[k].maxabs()), "Jacobian with leaves on the heap");
    s.nontrivial();
}
}  // namespace
FACET("leaves at odd addresses", 3) { oddAddresses(s); }
FACET("proxies and heap", 3) { dynamic(s); }
FACET("lifetimes: matrix rotation", 2) { lifetimes<RotationMd>(s); }
FACET("lifetimes: quaternion", 2) { lifetimes<RotationQd>(s); }
FACET("lifetimes: angle-axis", 2) { lifetimes<RotationAd>(s); }
FACET("vector of quaternion rotations", 1) { container<RotationQd, std::vector<RotationQd>>(s); }
FACET("vector of matrix transforms", 1) { container<RigidTransformMd, std::vector<RigidTransformMd>>(s); }
FACET("deque of compact transforms", 1) { container<RigidTransformQd, std::deque<RigidTransformQd>>(s); }
FACET("vector of twists", 1) { container<Twistd, std::vector<Twistd>>(s); }
FACET("deque of translations", 1) { container<Translationd, std::deque<Translationd>>(s); }
