// Scaling an expression by a power of two scales its derivatives by the same power, however large or small.
#include "prog.hpp"
#include <wave/geometry/dynamic.hpp>
using namespace wave;
namespace {
using ref::Mat; using ref::F;
template <typename Ls, size_t... I> Mat pick(const Ls &t, size_t i, std::index_sequence<I...>) {
    Mat o; ((I + 1 == i ? (o = gen::mat(std::get<I + 1>(t)), 0) : 0), ...); return o;
}
void exactly(const Mat &scaled, const Mat &plain, int e, const char *mode, int leaf) {
    F m = plain.maxabs();
    Mat back = scaled;
    for (auto &x : back.a) x = std::ldexp(x, -e);
    gen::close(back, plain, 1e-14L * m, std::string(mode) + ": Jacobian of (expression)*2^" + std::to_string(e) + " with respect to leaf " + std::to_string(leaf) + ", scaled back");
}
template <typename E, typename... Ls> void scaled(pbt::Source &s, const E &e, const Ls &... ls) {
    namespace wi = internal;
    const int n = s.coin() ? s.range(-200, 200) : s.range(-60, 60);
    const double k = std::ldexp(1.0, n);
    s.note([&](auto &o) { o << "scaled by 2^" << n; });
    s.nontrivial();
    const auto es = e * k;
    const auto ks = k * e;
    auto all = [&](const auto &x, const char *side) {
        int i = 0;
        ((exactly(gen::mat(wi::evaluateJacobian(x, ls)), gen::mat(wi::evaluateJacobian(e, ls)), n, (std::string("forward mode, ") + side).c_str(), i),
          exactly(gen::mat(wi::evaluateDynamicJacobian(x, ls)), gen::mat(wi::evaluateDynamicJacobian(e, ls)), n, (std::string("dynamic mode, ") + side).c_str(), i), ++i), ...);
        const auto a = wi::evaluateWithDynamicReverseJacobians(x), b = wi::evaluateWithDynamicReverseJacobians(e);
        i = 0;
        ((exactly(gen::mat(a.second.at(&ls)), gen::mat(b.second.at(&ls)), n, (std::string("dynamic reverse mode, ") + side).c_str(), i), ++i), ...);
    };
    all(es, "factor on the right");
    all(ks, "factor on the left");
}
template <typename T> T mk(pbt::Source &s, const char *n) { return rp::tame<T>(s, n); }
}
FACET("scaled expressions", 1) {
    const Translationd p = mk<Translationd>(s, "p"), q = mk<Translationd>(s, "q");
    const RotationQd r = mk<RotationQd>(s, "r");
    const RotationMd m = mk<RotationMd>(s, "m");
    const RigidTransformMd u = mk<RigidTransformMd>(s, "u");
    const RelativeRotationd w = mk<RelativeRotationd>(s, "w");
    const Scalar<double> c{s.uniform(-3, 3)};
    switch (s.below(8)) {
        case 0: { const auto x = p + q; scaled(s, x, p, q); break; }
        case 1: { const auto x = r * p; scaled(s, x - q, r, p, q); break; }
        case 2: { const auto x = r * m; scaled(s, x * (p + q), r, m, p, q); break; }
        case 3: { const auto x = u * inverse(u); scaled(s, (x * u) * p, u, p); break; }
        case 4: { const auto x = log(r) + w; scaled(s, x + w, r, w); break; }
        case 5: { const auto x = p * c; const auto y = x + (m * x); scaled(s, y + x, p, c, m); break; }
        case 6: { const auto x = -p; const auto y = x - q; scaled(s, r * y, p, q, r); break; }
        default: { const auto x = (m * r) - r; scaled(s, x, m, r); }
    }
}
