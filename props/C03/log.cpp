#include "common.hpp"
static void check_log(const ref::V3 &v, const ref::M3 &R, const char *what, F turn = 0) {
    F th = ref::norm3(v);
    const ref::V3 want = ref::logSO3(R);
    const F wth = ref::norm3(want);
    if (!std::isfinite((double) th)) pbt::fail(what, ": not finite");
    REQUIRE(th <= ref::PI + 1e-14L, what, ": angle ", (double) th, " exceeds pi");
    F d = ref::maxabs(ref::expSO3(v) - R);
    REQUIRE(d <= 4e-15L, what, ": exp(log(R)) differs from R by ", (double) d, " R=", R, " log=", v);
    if (wth < 3.1L) {
        F e = ref::maxabs(v - want);
        REQUIRE(e <= 8e-15L * std::min<F>(1, wth) + turn + 1e-300L, what, ": got ", v, " want ", want, " relative error ", (double) (e / wth));
    } else {
        REQUIRE(std::fabs(th - wth) <= 1e-14L, what, ": angle ", (double) th, " want ", (double) wth);
    }
}
template <typename R_>
static void one(Source &s, const char *n) {
    const R_ R = s.below(4) ? leaf<R_>(s, {}, "R") : R_{RotationQd{Eigen::Quaterniond{RotationQd{exp(RelativeRotationd{wide_rotvec(s)})}.value()}}};
    s.note([&](auto &o) { o << val(R); });
    const auto r = val(R);
    if (ref::maxabs(r.R - ref::I3()) > 0) s.nontrivial();
    // an angle close to several whole turns: the reference itself has rounded it
    F turn = 0;
    if constexpr (std::is_same<R_, RotationAd>::value) if (std::fabs(R.value().angle()) > 1) turn = 2e-18L * std::fabs(R.value().angle());
    check_log(val(log(R).eval()).v, r.R, n, turn);
    check_log(val(log(inverse(R)).eval()).v, ref::T(r.R), "log(inverse(R))", turn);
    const auto back = exp(log(R)).eval();
    check(back, r, 1e-14L, "exp(log(R))");
}
FACET("log matrix", 2) { one<RotationMd>(s, "log of a matrix"); }
FACET("log quaternion", 2) { one<RotationQd>(s, "log of a quaternion"); }
FACET("log angle-axis", 2) { one<RotationAd>(s, "log of an angle-axis"); }
