#pragma once
#include "gen.hpp"
using namespace gen;
using pbt::Source;
using wave::RotationMd; using wave::RotationQd; using wave::RotationAd; using wave::Translationd;
using wave::RelativeRotationd; using wave::Twistd;
using TM = wave::RigidTransformMd; using TQ = wave::RigidTransformQd;
template <typename X> struct Space;
struct RotSpace {
    using Tangent = RelativeRotationd; using Plain = RotationMd;
    static Tangent tangent(Source &s, bool) { return Tangent{rotvec(s, INTERIOR)}; }
    static F scale(std::initializer_list<ref::Val>) { return 1; }
};
struct RigidSpace {
    using Tangent = Twistd; using Plain = TM;
    static Tangent tangent(Source &s, bool) { Eigen::Vector3d w = rotvec(s, INTERIOR), u = vec(s, 100); return Tangent{w, u}; }
    static F scale(std::initializer_list<ref::Val> l) { F t = 1; for (auto &v : l) t += ref::norm3(v.v) + ref::norm3(v.u); return t; }
};
template <> struct Space<RotationMd> : RotSpace { static constexpr const char *n = "M"; };
template <> struct Space<RotationQd> : RotSpace { static constexpr const char *n = "Q"; };
template <> struct Space<RotationAd> : RotSpace { static constexpr const char *n = "A"; };
template <> struct Space<TM> : RigidSpace { static constexpr const char *n = "TM"; };
template <> struct Space<TQ> : RigidSpace { static constexpr const char *n = "TQ"; };

template <typename X, typename Y>
void laws(Source &s) {
    using Sp = Space<X>; using Tan = typename Sp::Tangent; using Plain = typename Sp::Plain;
    Opt o; o.tmax = 100;
    const X x = leaf<X>(s, o, "x");
    Y y = leaf<Y>(s, o, "y");
    Tan v = Sp::tangent(s, true);
    s.note([&](auto &os) { os << "v=" << val(v); });
    switch (s.below(4)) {
        case 1: y = Y{x}; s.label("pair:equal"); break;
        case 2: y = Y{x + v}; s.label("pair:step"); s.nontrivial(); break;
        default: s.nontrivial();
    }
    const auto vx = val(x), vy = val(y), vv = val(v);
    const F e = 1e-13L * Sp::scale({vx, vy, vv});
    // values against the reference
    const auto xv = ref::add(vx, vv);
    check((x + v).eval(), xv, e, "x + v");
    check(Plain{x + v}, xv, e, "plain{x + v}");
    check(Plain{exp(v) * x}, xv, e, "exp(v) * x");
    const auto d = (x - y).eval();
    const auto vd = val(d);
    REQUIRE(ref::finite(vd), "x - y is not finite");
    const F th = ref::norm3(vd.v);
    REQUIRE(th <= ref::PI + 1e-13L, "x - y turns by ", (double) th);
    const auto wd = ref::sub(vx, vy);
    if (ref::norm3(wd.v) < 3.1L) {
        close(vd, wd, 4 * e, "x - y");
        check(log(x * inverse(y)).eval(), vd, 4 * e, "log(x * inverse(y)) vs x - y");
        check((y - x).eval(), ref::neg(vd), 4 * e, "y - x vs -(x - y)");
    }
    // laws
    check(Plain{y + (x - y)}, vx, 4 * e, "y + (x - y) = x");
    check(Plain{y + d}, vx, 4 * e, "y + d = x");
    check(((x + v) - x).eval(), vv, 4 * e * (1 + ref::norm3(vv.u)), "(x + v) - x = v");
    check(((y + v) - y).eval(), vv, 4 * e * (1 + ref::norm3(vv.u)), "(y + v) - y = v");
    // the rotation part cancels exactly up to rounding of the product (1e-16 absolute)
    check((x - x).eval(), ref::sub(vx, vx), 4 * e, "x - x = 0");
    const Tan zero{Eigen::Matrix<double, wave::internal::traits<Tan>::Size, 1>::Zero()};
    check(Plain{x + zero}, vx, e, "x + 0 = x");
    check(Plain{(x + v) + v}, ref::add(xv, vv), 2 * e * (1 + ref::norm3(vv.u)), "(x + v) + v");
}
#define LAWS(X, Y) static pbt::Register PBT_CAT(r, __LINE__){std::string("laws ") + Space<X>::n + "-" + Space<Y>::n, 1, laws<X, Y>};
