// Concurrent use of the parts that generated programs do not contain
#include "conc.hpp"
using namespace wave;
namespace {
struct FA; struct FB; struct FC;
template <typename M> conc::Out flat(const M &m) { conc::Out o; const auto d = m.eval(); for (int i = 0; i < d.rows(); ++i) for (int j = 0; j < d.cols(); ++j) o.push_back((double) d(i, j)); return o; }
void join(conc::Out &a, const conc::Out &b) { a.insert(a.end(), b.begin(), b.end()); }
struct Landmark { template <typename T, typename P> auto operator()(const T &t, const P &p) const { return inverse(t) * p; } };
struct Between { template <typename A, typename B> auto operator()(const A &a, const B &b) const { return log(inverse(a) * b); } };
// leaves of one thread change while others evaluate over other leaves
void own(pbt::Source &s) {
    const auto shared = rp::tame<RotationQd>(s, "shared");
    std::vector<Translationd> ps;
    for (int i = 0; i < 4; ++i) ps.push_back(rp::tame<Translationd>(s, "p"));
    conc::both(s, 3, [&](int way, size_t i) {
        Translationd mine = ps[i];
        const auto e = shared * mine;
        conc::Out o;
        for (int k = 0; k < 3; ++k) {
            conc::add(o, gen::val(e.eval()));
            mine.value()[way] += 1;
            mine = Translationd{e + mine};
            conc::add(o, gen::mat(e.jacobian(shared)));
        }
        return o;
    });
}
// proxies built, bound and evaluated by each thread over shared leaves
void proxies(pbt::Source &s) {
    const auto r = rp::tame<RotationMd>(s, "r");
    const auto q = rp::tame<RotationQd>(s, "q");
    const auto a = rp::tame<RotationAd>(s, "a");
    const auto p = rp::tame<Translationd>(s, "p");
    const auto w = rp::tame<RelativeRotationd>(s, "w");
    conc::both(s, 4, [&](int way, size_t) {
        Proxy<Translationd> x{r * (p + p)};
        if (way & 1) x = r * p;
        auto g = makeProxy(q * exp(w));
        const auto e = g * x;
        conc::Out o;
        conc::add(o, gen::val(e.eval()));
        for (int k = 0; k <= way; ++k) {
            x = a * p;
            conc::add(o, gen::val(e.eval()));
            conc::add(o, gen::mat(internal::evaluateDynamicJacobian(e, w)));
            conc::add(o, gen::mat(internal::evaluateDynamicJacobian(e, p)));
            const auto m = internal::evaluateWithDynamicReverseJacobians(e);
            conc::add(o, gen::mat(m.second.at(&q)));
        }
        return o;
    });
}
template <typename Noise, typename U, typename Fn, typename A, typename B> void factor(pbt::Source &s, const U &u, const Fn &, const A &a, const B &b) {
    const auto f = makeFactor<Fn>(u, std::make_shared<FactorVariable<A>>(), std::make_shared<FactorVariable<B>>());
    conc::both(s, 2, [&](int way, size_t) {
        conc::Out o;
        if (way == 0) return flat(f.evaluate(a, b));
        const auto t = f.evaluateWithJacobians(a, b);
        o = flat(std::get<0>(t));
        join(o, flat(std::get<1>(t)));
        join(o, flat(std::get<2>(t)));
        for (auto it = f.begin(); it != f.end(); ++it) o.push_back((double) (*it)->size());
        return o;
    });
}
void factors(pbt::Source &s) {
    const auto t = rp::tame<RigidTransformMd>(s, "t");
    const auto p = rp::tame<Translationd>(s, "p");
    const auto z = rp::tame<Translationd>(s, "z");
    using Dn = DiagonalNoise<Translationd>; using Un = Uncertain<Translationd, DiagonalNoise>;
    if (s.coin()) return factor<Dn>(s, Un{z, Dn::FromStdDev(0.5, 2.0, 3.0)}, Landmark{}, t, p);
    Eigen::Matrix3d c = Eigen::Matrix3d::Identity(); c(0, 1) = c(1, 0) = s.uniform(-0.9, 0.9);
    using Fu = FullNoise<Translationd>; using Uf = Uncertain<Translationd, FullNoise>;
    factor<Fu>(s, Uf{z, Fu::FromCovariance(c)}, Landmark{}, t, p);
}
void leaves(pbt::Source &s) {
    const auto t = rp::tame<RigidTransformQd>(s, "t");
    const auto m = rp::tame<RigidTransformMd>(s, "m");
    const auto q = rp::tame<RotationQd>(s, "q");
    const auto a = rp::tame<RotationAd>(s, "a");
    const auto w = rp::tame<RelativeRotationd>(s, "w");
    const Framed<RotationQd, FA, FB> fq{q.value()};
    const Framed<Translationd, FB, FB, FC> fp{rp::tame<Translationd>(s, "p").value()};
    conc::both(s, 8, [&](int way, size_t) {
        conc::Out o;
        switch (way) {
            case 0: o.push_back(RotationQd{a}.isApprox(RotationQd{q}, 0.5)); o.push_back(q.isApprox(a, 1e-9)); break;
            case 1: conc::add(o, gen::val(RotationMd{a})); conc::add(o, gen::val(RotationAd{q})); conc::add(o, gen::val(RotationQd{RotationMd{q}})); break;
            case 2: conc::add(o, gen::val(t.rotation().eval())); conc::add(o, gen::val(t.translation().eval())); break;
            case 3: conc::add(o, gen::val(RigidTransformMd{t * m})); conc::add(o, gen::val(RigidTransformQd{m * t})); break;
            case 4: conc::add(o, gen::val((fq * fp).eval())); conc::add(o, gen::val((inverse(fq) * (fq * fp)).eval())); break;
            case 5: conc::add(o, gen::val(RotationQd::Identity().eval())); conc::add(o, gen::val((q * RotationMd::Identity()).eval())); break;
            case 6: conc::add(o, gen::val(RelativeRotationd::Zero().eval())); conc::add(o, gen::val((w + RelativeRotationd::Zero()).eval())); break;
            default: { RotationQd x = q; x = x * a; x = x * exp(w); conc::add(o, gen::val(x)); }
        }
        return o;
    });
}
}  // namespace
FACET("threads change their own leaves", 2) { own(s); }
FACET("proxies of each thread over shared leaves", 2) { proxies(s); }
FACET("factors", 2) { factors(s); }
FACET("conversions, frames, constants", 2) { leaves(s); }
