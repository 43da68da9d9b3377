#include "common.hpp"
template <typename T_>
static void one(Source &s) {
    T_ T = leaf<T_>(s, {}, "T");
    if (s.below(4) == 0) { T = exp(Twistd{wide_rotvec(s), vec(s)}); s.note([&](auto &o) { o << "T=" << val(T); }); }
    const auto t = val(T);
    if (ref::maxabs(t.R - ref::I3()) > 0) s.nontrivial();
    const auto x = val(log(T).eval());
    const F th = ref::norm3(x.v), tn = ref::norm3(t.v);
    REQUIRE(ref::finite(x), "log is not finite");
    REQUIRE(th <= ref::PI + 1e-14L, "log(T): angle ", (double) th, " exceeds pi");
    const auto e = ref::exp(x);
    REQUIRE(ref::maxabs(e.R - t.R) <= 4e-15L, "rotation of exp(log(T)) off by ", (double) ref::maxabs(e.R - t.R));
    REQUIRE(ref::maxabs(e.v - t.v) <= 2e-14L * tn, "translation of exp(log(T)) off by ", (double) ref::maxabs(e.v - t.v), " of ", (double) tn);
    const F wth = ref::norm3(ref::logSO3(t.R));
    if (wth < 3.1L) {
        const auto w = ref::log(t);
        REQUIRE(ref::maxabs(x.v - w.v) <= 8e-15L * std::min<F>(1, wth) + 1e-300L, "rotation of log(T) got ", x.v, " want ", w.v);
        REQUIRE(ref::maxabs(x.u - w.u) <= 2e-14L * tn, "translation of log(T) got ", x.u, " want ", w.u);
    }
    check(exp(log(T)).eval(), t, 1e-13L * (1 + tn), "exp(log(T))");
    check(log(inverse(T)).eval(), ref::log(ref::inv(t)), wth < 3.1L ? 1e-13L * (1 + tn) : 1e300L, "log(inverse(T))");
}
FACET("log rigid matrix", 2) { one<TM>(s); }
FACET("log rigid quaternion", 2) { one<TQ>(s); }
