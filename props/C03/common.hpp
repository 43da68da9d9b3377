#pragma once
#include "gen.hpp"
using namespace gen;
using pbt::Source;
using wave::RotationMd; using wave::RotationQd; using wave::RotationAd; using wave::Translationd;
using wave::RelativeRotationd; using wave::Twistd;
using TM = wave::RigidTransformMd; using TQ = wave::RigidTransformQd;
inline double wide_angle(Source &s) {
    switch (s.below(4)) {
        case 0: return angle(s, PRINCIPAL);
        case 1: return angle(s, ANY);
        case 2: s.label("angle:series"); return std::pow(10.0, -s.range(0, 9)) * (1 + 9 * s.unit());
        default: s.label("angle:minute"); return std::pow(10.0, -s.range(10, 300));
    }
}
inline Eigen::Vector3d wide_rotvec(Source &s) { double a = wide_angle(s); Eigen::Vector3d x = axis(s); if (a != 0) s.nontrivial(); return a * x; }
/** R equals want, entrywise, and its antisymmetric part is accurate relative to the angle */
inline void rot_close(const ref::M3 &R, const ref::M3 &want, F theta, F eps, const char *what, F floor_ = 1e-300L) {
    F d = ref::maxabs(R - want);
    if (!(d <= eps * (1 + theta))) pbt::fail(what, ": got ", R, " want ", want, " error ", (double) d);
    ref::M3 A = R - ref::T(R), B = want - ref::T(want);
    F da = ref::maxabs(A - B);
    F lim = eps * std::min<F>(4, 4 * theta) * (1 + theta) + floor_;
    if (!(da <= lim)) pbt::fail(what, ": small-angle part is off by ", (double) da, " at angle ", (double) theta);
}
