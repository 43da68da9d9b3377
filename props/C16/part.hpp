// Histories of writes to parts of transforms and twists. Every stored number of a target (and of the memory around a mapped
// one) is a cell that belongs to the rotation part, the translation part, or neither.
#pragma once
#include "prog.hpp"
#include <array>
struct A; struct B;
namespace pt {
using ref::F; using ref::Val;
using M4R = Eigen::Matrix<double, 4, 4, Eigen::RowMajor>;
using V6 = Eigen::Matrix<double, 6, 1>;
using M8 = Eigen::Matrix<double, 8, 9>;
struct Cell { double *p; char part; };

// ---- families of leaves: without frames, and with the frames that make every expression below consistent ----
struct Un {
    template <typename L> using RAB = L; template <typename L> using RAA = L; template <typename L> using RBB = L; template <typename L> using RBA = L;
    template <typename L> using TAB = L; template <typename L> using TAA = L; template <typename L> using VAAB = L; template <typename L> using VABA = L; template <typename L> using VABB = L; template <typename L> using XAAB = L;
    static constexpr bool framed = false;
};
struct Fr {
    template <typename L> using RAB = wave::Framed<L, A, B>; template <typename L> using RAA = wave::Framed<L, A, A>; template <typename L> using RBB = wave::Framed<L, B, B>;
    template <typename L> using RBA = wave::Framed<L, B, A>;
    template <typename L> using TAB = wave::Framed<L, A, B>; template <typename L> using TAA = wave::Framed<L, A, A>;
    template <typename L> using VAAB = wave::Framed<L, A, A, B>; template <typename L> using VABA = wave::Framed<L, A, B, A>; template <typename L> using VABB = wave::Framed<L, A, B, B>; template <typename L> using XAAB = wave::Framed<L, A, A, B>;
    static constexpr bool framed = true;
};

// ---- targets ----
template <typename L_, typename Fam_> struct Target { using L = L_; using Fam = Fam_; std::vector<Cell> cells; };
inline void cells44(std::vector<Cell> &c, double *m, bool rowMajor, int stride) {
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j)
        c.push_back({m + (rowMajor ? i * stride + j : i + j * stride), i == 3 ? '-' : j == 3 ? 't' : 'r'});
}
template <int N> inline void guards(std::vector<Cell> &c, double (&buf)[N]) {
    std::set<double *> have; for (auto &x : c) have.insert(x.p);
    for (double &x : buf) if (!have.count(&x)) c.push_back({&x, '-'});
}
template <typename Fam, typename L> struct OwnU : Target<typename Fam::template TAB<L>, Fam> {   // 4x4 matrix
    typename Fam::template TAB<L> x;
    OwnU() { cells44(this->cells, x.value().data(), std::decay_t<decltype(x.value())>::IsRowMajor, 4); }
};
template <typename Fam> struct OwnT : Target<typename Fam::template TAB<wave::RigidTransformQd>, Fam> {
    typename Fam::template TAB<wave::RigidTransformQd> x;
    OwnT() {
        double *q = std::get<0>(x.value()).value().coeffs().data(), *t = std::get<1>(x.value()).value().data();
        for (int i = 0; i < 4; ++i) this->cells.push_back({q + i, 'r'});
        for (int i = 0; i < 3; ++i) this->cells.push_back({t + i, 't'});
    }
};
template <typename Fam, typename Mat> struct MapU : Target<typename Fam::template TAB<wave::MatrixRigidTransform<Eigen::Map<Mat>>>, Fam> {
    double buf[26]; typename Fam::template TAB<wave::MatrixRigidTransform<Eigen::Map<Mat>>> x;
    MapU() : x{Eigen::Map<Mat>{buf + 5}} {
        for (double &d : buf) d = 7;
        Eigen::Map<Mat>{buf + 5}.setIdentity();
        cells44(this->cells, buf + 5, Mat::IsRowMajor, 4); guards(this->cells, buf);
    }
};
struct BlockU : Target<wave::MatrixRigidTransform<Eigen::Block<M8, 4, 4>>, Un> {
    M8 m; L x;
    BlockU() : x{m.block<4, 4>(2, 3)} {
        m.setConstant(7); x.value().setIdentity();
        cells44(cells, &m(2, 3), false, 8);
        std::set<double *> have; for (auto &c : cells) have.insert(c.p);
        for (int i = 0; i < m.size(); ++i) if (!have.count(m.data() + i)) cells.push_back({m.data() + i, '-'});
    }
};
template <typename Fam> struct MapT : Target<typename Fam::template TAB<wave::CompactRigidTransform<Eigen::Map<Eigen::Quaterniond>, Eigen::Map<Eigen::Vector3d>>>, Fam> {
    double buf[16]; typename MapT::L x;
    MapT() : x{Eigen::Map<Eigen::Quaterniond>{buf + 9}, Eigen::Map<Eigen::Vector3d>{buf + 3}} {
        for (double &d : buf) d = 7;
        for (int i = 0; i < 4; ++i) this->cells.push_back({buf + 9 + i, 'r'});
        for (int i = 0; i < 3; ++i) this->cells.push_back({buf + 3 + i, 't'});
        guards(this->cells, buf);
    }
};
template <typename Fam> struct OwnX : Target<typename Fam::template XAAB<wave::Twistd>, Fam> {
    typename Fam::template XAAB<wave::Twistd> x;
    OwnX() { for (int i = 0; i < 6; ++i) this->cells.push_back({x.value().data() + i, i < 3 ? 'r' : 't'}); }
};
template <typename Fam> struct MapX : Target<typename Fam::template XAAB<wave::Twist<Eigen::Map<V6>>>, Fam> {
    double buf[12]; typename MapX::L x;
    MapX() : x{Eigen::Map<V6>{buf + 3}} {
        for (double &d : buf) d = 7;
        for (int i = 0; i < 6; ++i) this->cells.push_back({buf + 3 + i, i < 3 ? 'r' : 't'});
        guards(this->cells, buf);
    }
};
struct BlockX : Target<wave::Twist<Eigen::Block<M8, 6, 1>>, Un> {
    M8 m; L x;
    BlockX() : x{m.block<6, 1>(1, 4)} {
        m.setConstant(7);
        for (int i = 0; i < m.size(); ++i) {
            const int r = i % 8, c = i / 8;
            cells.push_back({m.data() + i, c == 4 && r >= 1 && r < 4 ? 'r' : c == 4 && r >= 4 && r < 7 ? 't' : '-'});
        }
    }
};

struct Watch {   // what a write may change
    const std::vector<Cell> &c; std::vector<double> was;
    explicit Watch(const std::vector<Cell> &c_) : c(c_) { for (auto &x : c) was.push_back(*x.p); }
    void only(const char *parts, const std::string &what) const {
        for (size_t i = 0; i < c.size(); ++i)
            if (!std::strchr(parts, c[i].part) && std::memcmp(&was[i], c[i].p, sizeof(double)))
                pbt::fail(what, " changed a number of ", c[i].part == 'r' ? "the rotation part" : c[i].part == 't' ? "the translation part" : "neither part", " (cell ", i, "): ", was[i], " -> ", *c[i].p);
    }
};
template <typename L> L leaf(pbt::Source &s, const char *name) { return rp::tame<L>(s, name); }
inline F tol(const Val &a, const Val &b) { return 1e-12L * (1 + ref::mag(a) + ref::mag(b)); }

/** one write; `want` of the part; whatever is not named by `part` stays */
template <typename T, typename Fn> void write(T &t, pbt::Source &s, char part, const Val &want, const char *what, Fn &&fn) {
    s.note([&](auto &os) { os << (part == 'r' ? "rotation" : "translation") << " := " << what << " = " << want; });
    const Watch w(t.cells);
    const Val before = gen::val(t.x);
    fn();
    const std::string name = std::string("assigning ") + what + " to the " + (part == 'r' ? "rotation" : "translation");
    w.only(part == 'r' ? "r" : "t", name);
    const Val v = gen::val(t.x);
    gen::close(part == 'r' ? ref::rot(v) : ref::trans(v), want, tol(before, want), "the part after " + name);
}

/** a value of each part which is close to, but not the same as, the present one, is written all the same */
template <bool Transform, typename T, typename Q, typename M, typename P, typename Z> void nudge(T &t, pbt::Source &s) {
    s.label("a barely different value");
    const double eps = (s.coin() ? 1 : -1) * std::pow(10.0, s.uniform(-15, -12));
    if (Transform && s.coin()) { if constexpr (Transform) {
        const M m{Eigen::Matrix3d{Eigen::AngleAxisd{eps, Eigen::Vector3d::Unit(s.below(3))}.toRotationMatrix() * M{t.x.rotation()}.value()}};
        const Q q{m};
        write(t, s, 'r', gen::val(m), "a barely different rotation", [&] {
            switch (s.below(4)) {
                case 0: t.x.rotation() = m; break;
                case 1: t.x.rotation() = M{m}; break;
                case 2: t.x.rotation() = q; break;
                default: t.x.rotation() = Q{q};
            }
        });
        if (std::fabs(eps) > 1e-13) gen::close(ref::rot(gen::val(t.x)), gen::val(m), 1e-14L, "barely different rotation");
    } } else {
        const P was{t.x.translation()};
        Eigen::Vector3d v = was.value();
        const int i = (int) s.below(3);
        v[i] += eps;
        const P p{(Eigen::Vector3d) v}; const Z z{0, 0, 0};
        write(t, s, 't', gen::val(p), "a barely different vector", [&] {
            switch (s.below(4)) {
                case 0: t.x.translation() = p; break;
                case 1: t.x.translation() = P{p}; break;
                case 2: t.x.translation() = p + z; break;
                default: t.x.translation() = P{p} + Z{z};
            }
        });
        const P now{t.x.translation()};
        if (now.value() != v) pbt::fail("a vector a hair from the old one was not written: ", (now.value() - v).norm(), " off");
    }
}
// ---- transforms ----
template <typename T> void transform(pbt::Source &s) {
    using Fam = typename T::Fam;
    using namespace wave;
    T t, t2;
    using L = typename T::L;
    using Q = typename Fam::template RAB<RotationQd>; using M = typename Fam::template RAB<RotationMd>; using An = typename Fam::template RAB<RotationAd>;
    using QA = typename Fam::template RAA<RotationQd>; using MA = typename Fam::template RAA<RotationMd>; using MB = typename Fam::template RBB<RotationMd>;
    using MBA = typename Fam::template RBA<RotationMd>;
    using P = typename Fam::template VAAB<Translationd>; using P2 = typename Fam::template VABB<Translationd>; using Pm = typename Fam::template VABA<Translationd>; using W = typename Fam::template VAAB<RelativeRotationd>;
    using Um = typename Fam::template TAB<RigidTransformMd>; using Tq = typename Fam::template TAB<RigidTransformQd>;
    using Ua = typename Fam::template TAA<RigidTransformMd>;
    const auto ten = [](const Val &v) { return rp::ok(v); };
    (void) ten;
    const Um u = leaf<Um>(s, "U"); const Tq tq = leaf<Tq>(s, "T"); const Ua ua = leaf<Ua>(s, "Uaa");
    const Q q = leaf<Q>(s, "q"); const M m = leaf<M>(s, "m"); const An an = leaf<An>(s, "an"); const QA qa = leaf<QA>(s, "qa"); const MA ma = leaf<MA>(s, "ma"); const MB mb = leaf<MB>(s, "mb"); const MBA mba = leaf<MBA>(s, "mba");
    const P p = leaf<P>(s, "p"); const P2 p2 = leaf<P2>(s, "p2"); const Pm pm = leaf<Pm>(s, "pm"); const W w = leaf<W>(s, "w"); const Scalar<double> k{s.uniform(-2, 2)};
    t.x = u; t2.x = tq;
    {   // assigned as a whole
        gen::close(gen::val(t.x), gen::val(u), tol(gen::val(u), gen::val(u)), "target assigned from a matrix transform");
        gen::close(gen::val(t2.x), gen::val(tq), tol(gen::val(tq), gen::val(tq)), "target assigned from a compact transform");
    }
    const int steps = s.range(1, 20);
    int writes = 0;
    for (int i = 0; i < steps; ++i) {
        if (gen::invalid(t.x) > 1e-12L || ref::mag(gen::val(t.x)) > 300) t.x = u;
        if (gen::invalid(t2.x) > 1e-12L) t2.x = tq;
        const Val now = gen::val(t.x), R = ref::rot(now), V = ref::trans(now);
        const Val o = gen::val(t2.x);
        ++writes;
        if (s.below(12) == 0) { nudge<true, T, Q, M, P, P2>(t, s); continue; }
        const unsigned op = (unsigned) s.below(Fam::framed ? 34 : 41);
        switch (op) {
#define R_(n, want, text, e) case n: write(t, s, 'r', want, text, [&] { t.x.rotation() = e; }); break;
#define T_(n, want, text, e) case n: write(t, s, 't', want, text, [&] { t.x.translation() = e; }); break;
            R_(0, gen::val(q), "quaternion", q)
            R_(1, gen::val(m), "matrix", m)
            R_(2, gen::val(an), "angle-axis", an)
            R_(3, rp::mul(gen::val(qa), gen::val(m)), "q*m", qa * m)
            R_(4, rp::mul(gen::val(ma), gen::val(q)), "m*q", ma * q)
            R_(5, rp::inv(gen::val(mba)), "inverse", inverse(mba))
            R_(6, rp::mul(rp::exp(gen::val(w)), gen::val(q)), "exp(w)*q", exp(w) * q)
            R_(7, rp::mul(gen::val(ma), R), "m*(own rotation)", ma * t.x.rotation())
            R_(8, rp::mul(R, gen::val(mb)), "(own rotation)*m", t.x.rotation() * mb)
            R_(9, rp::mul(gen::val(qa), R), "q*(own rotation)", qa * t.x.rotation())
            R_(10, ref::rot(o), "rotation of another target", t2.x.rotation())
            R_(11, ref::rot(gen::val(u)), "rotation of U", u.rotation())
            R_(12, ref::rot(gen::val(tq)), "rotation of T", tq.rotation())
            R_(13, ref::rot(rp::mul(gen::val(ua), now)), "rotation of U*(target)", (ua * t.x).rotation())
            R_(14, rp::add(R, gen::val(w)), "(own rotation)+w", t.x.rotation() + w)
            R_(15, rp::mul(gen::val(qa), gen::val(q)), "proxy", makeProxy(qa * q))
            T_(16, gen::val(p), "vector", p)
            T_(17, rp::neg(gen::val(pm)), "negative", -pm)
            T_(18, rp::add(gen::val(p), gen::val(p2)), "sum", p + p2)
            T_(19, rp::sub(V, gen::val(p2)), "(own)-p", t.x.translation() - p2)
            T_(20, rp::mul(gen::val(k), V), "k*(own)", k * t.x.translation())
            T_(21, rp::mul(gen::val(ma), V), "m*(own)", ma * t.x.translation())
            T_(22, rp::mul(gen::val(qa), gen::val(p)), "q*p", qa * p)
            T_(23, ref::trans(o), "translation of another target", t2.x.translation())
            T_(24, ref::trans(gen::val(u)), "translation of U", u.translation())
            T_(25, ref::trans(gen::val(tq)), "translation of T", tq.translation())
            T_(26, ref::trans(rp::mul(gen::val(ua), now)), "translation of U*(target)", (ua * t.x).translation())
            T_(27, rp::add(V, rp::add(gen::val(p2), gen::val(p2))), "(own)+p+p", t.x.translation() + p2 + p2)
            T_(28, rp::add(V, gen::val(p2)), "proxy", makeProxy(t.x.translation() + p2))
            case 29: {   // through the block getters
                const Eigen::Matrix3d r = gen::rotmat(s, gen::TAME);
                write(t, s, 'r', ref::Ro(gen::m3(r)), "an Eigen matrix", [&] { if constexpr (Fam::framed) t.x.rotation() = M{(Eigen::Matrix3d) r}; else t.x.rotationBlock().value() = r; });
                break;
            }
            case 30: {
                const Eigen::Vector3d v = gen::vec(s, 10);
                write(t, s, 't', ref::V(gen::v3(v)), "an Eigen vector", [&] { if constexpr (Fam::framed) t.x.translation() = P{(Eigen::Vector3d) v}; else t.x.translationBlock().value() = v; });
                break;
            }
            case 31: {   // reads
                const Watch wt(t.cells);
                gen::check(eval(t.x.rotation()), R, tol(now, now), "rotation()"); gen::check(eval(t.x.translation()), V, tol(now, now), "translation()");
                const L &c = t.x;
                gen::check(eval(c.rotation()), R, tol(now, now), "rotation() const"); gen::check(eval(c.translation()), V, tol(now, now), "translation() const");
                const Val un = rp::mul(gen::val(ua), now);
                gen::check(eval((ua * c).rotation()), ref::rot(un), 10 * tol(un, now), "rotation() of a product"); gen::check(eval((ua * c).translation()), ref::trans(un), 10 * tol(un, now), "translation() of a product");
                const Val in = rp::inv(now);
                gen::check(eval(inverse(c).rotation()), ref::rot(in), 10 * tol(in, now), "rotation() of an inverse"); gen::check(eval(inverse(c).translation()), ref::trans(in), 10 * tol(in, now), "translation() of an inverse");
                M xm{c.rotation()}; Q xq{c.rotation()}; P xp{c.translation()};
                gen::check(xm, R, tol(now, now), "matrix made from rotation()"); gen::check(xq, R, tol(now, now), "quaternion made from rotation()"); gen::check(xp, V, tol(now, now), "vector made from translation()");
                xm = t.x.rotation(); xq = t.x.rotation(); xp = t.x.translation();
                gen::check(xm, R, tol(now, now), "matrix assigned from rotation()"); gen::check(xq, R, tol(now, now), "quaternion assigned from rotation()"); gen::check(xp, V, tol(now, now), "vector assigned from translation()");
                if constexpr (!Fam::framed) { Um cu{c.rotation(), c.translation()}; Tq ct{c.rotation(), c.translation()};
                gen::check(cu, now, tol(now, now), "matrix transform made from parts"); gen::check(ct, now, tol(now, now), "compact transform made from parts"); }
                const auto rp_ = t.x.rotation(); const auto tp_ = t.x.translation();   // kept: they see later writes
                wt.only("", "reading parts");
                write(t, s, 'r', gen::val(q), "quaternion", [&] { t.x.rotation() = q; });
                write(t, s, 't', gen::val(p), "vector", [&] { t.x.translation() = p; });
                gen::check(eval(rp_), gen::val(q), tol(gen::val(q), gen::val(q)), "kept rotation() after a write"); gen::check(eval(tp_), gen::val(p), tol(gen::val(p), gen::val(p)), "kept translation() after a write");
                break;
            }
            case 32: {   // a copy is independent; changing it leaves the original alone
                const Watch wt(t.cells);
                std::decay_t<decltype(t.x.eval())> c = t.x.eval();
                c.rotation() = q; c.translation() = p;
                wt.only("", "changing a copy");
                gen::check(c, ref::Tf(gen::val(q).R, gen::val(p).v), tol(gen::val(p), now), "copy with both parts set");
                break;
            }
            case 33: {   // swap parts with another object through a temporary
                const auto r = eval(t.x.rotation()); const auto v = eval(t.x.translation());
                const Watch w2(t2.cells);
                write(t, s, 'r', ref::rot(o), "rotation of another target", [&] { t.x.rotation() = t2.x.rotation(); });
                w2.only("", "assigning from this object's part");
                write(t2, s, 'r', R, "saved rotation", [&] { t2.x.rotation() = r; });
                write(t2, s, 't', V, "saved translation", [&] { t2.x.translation() = v; });
                break;
            }
            default:
                if constexpr (!Fam::framed) switch (op) {
                    R_(34, rp::inv(R), "inverse of its own rotation", inverse(t.x.rotation()))
                    R_(35, rp::mul(R, R), "square of its own rotation", t.x.rotation() * t.x.rotation())
                    R_(36, ref::rot(rp::inv(now)), "rotation of its own inverse", inverse(t.x).rotation())
                    T_(37, ref::trans(rp::inv(now)), "translation of its own inverse", inverse(t.x).translation())
                    T_(40, rp::add(V, V), "(own)+(own)", t.x.translation() + t.x.translation())
        T_(38, rp::mul(R, V), "(own rotation)*(own translation)", t.x.rotation() * t.x.translation())
                    T_(39, ref::trans(rp::mul(now, now)), "translation of its own square", (t.x * t.x).translation())
                }
        }
        if (op == 7 || op == 8 || op == 13 || op == 14 || op == 20 || op == 21 || op >= 26) s.label("reads the target itself");
    }
    if (writes >= 2) s.nontrivial();
}
// ---- twists ----
template <typename T> void twist(pbt::Source &s) {
    using Fam = typename T::Fam;
    using namespace wave;
    T t, t2;
    using L = typename T::L;
    using Q = typename Fam::template RAB<RotationQd>; using MA = typename Fam::template RAA<RotationMd>;
    using P = typename Fam::template VAAB<Translationd>; using W = typename Fam::template VAAB<RelativeRotationd>; using X = typename Fam::template XAAB<Twistd>;
    const X x = leaf<X>(s, "X"), x2 = leaf<X>(s, "X2"); const P p = leaf<P>(s, "p"), p2 = leaf<P>(s, "p2"); const W w = leaf<W>(s, "w"), w2 = leaf<W>(s, "w2");
    const Q q = leaf<Q>(s, "q"), r2 = leaf<Q>(s, "r"); const MA ma = leaf<MA>(s, "ma"); const Scalar<double> k{s.uniform(-2, 2)};
    (void) r2; (void) ma;
    t.x = x; t2.x = x2;
    gen::close(gen::val(t.x), gen::val(x), 0, "twist assigned from a twist");
    const int steps = s.range(1, 20);
    for (int i = 0; i < steps; ++i) {
        if (ref::mag(gen::val(t.x)) > 300) t.x = x;
        const Val now = gen::val(t.x), R = ref::rot(now), V = ref::trans(now), o = gen::val(t2.x);
        if (s.below(12) == 0) { nudge<false, T, Q, MA, P, P>(t, s); continue; }
        switch (s.below(20)) {
            R_(0, gen::val(w), "vector", w)
            R_(1, rp::neg(gen::val(w)), "negative", -w)
            R_(2, rp::add(gen::val(w), gen::val(w2)), "sum", w + w2)
            R_(3, rp::add(R, gen::val(w2)), "(own)+w", t.x.rotation() + w2)
            R_(4, rp::mul(gen::val(k), R), "k*(own)", k * t.x.rotation())
            R_(5, ref::rot(o), "rotation of another target", t2.x.rotation())
            R_(6, ref::rot(gen::val(x2)), "rotation of X", x2.rotation())
            R_(7, rp::log(gen::val(q)), "log(q)", log(q))
            R_(8, rp::sub(gen::val(w), R), "w-(own)", w - t.x.rotation())
            T_(9, gen::val(p), "vector", p)
            T_(10, rp::neg(V), "negative of its own", -t.x.translation())
            T_(11, rp::add(gen::val(p), gen::val(p2)), "sum", p + p2)
            T_(12, rp::sub(V, gen::val(p2)), "(own)-p", t.x.translation() - p2)
            T_(13, ref::trans(o), "translation of another target", t2.x.translation())
            T_(14, ref::trans(gen::val(x2)), "translation of X", x2.translation())
            R_(15, rp::add(R, gen::val(w)), "proxy", makeProxy(t.x.rotation() + w))
            case 16: {
                const Eigen::Vector3d v = gen::vec(s, 10);
                write(t, s, 'r', ref::V(gen::v3(v)), "an Eigen vector", [&] { t.x.rotation().value() = v; });
                break;
            }
            case 17: {   // a named part
                auto b = t.x.translation();
                write(t, s, 't', gen::val(p2), "vector, to a named part", [&] { b = p2; });
                gen::check(b, gen::val(p2), 0, "named part");
                break;
            }
            case 18: {   // named parts alias the object
                const L &c = t.x;
                const auto a = c.rotation(); const auto b = c.translation();
                gen::check(a, R, 0, "rotation() const"); gen::check(b, V, 0, "translation() const"); gen::check(eval(t.x.rotation()), R, 0, "rotation()"); gen::check(eval(t.x.translation()), V, 0, "translation()");
                write(t, s, 'r', gen::val(w2), "vector", [&] { t.x.rotation() = w2; });
                write(t, s, 't', gen::val(p), "vector", [&] { t.x.translation() = p; });
                gen::check(a, gen::val(w2), 0, "kept rotation() after a write"); gen::check(b, gen::val(p), 0, "kept translation() after a write");
                W ww{t.x.rotation()}; P pp{t.x.translation()};
                gen::check(ww, gen::val(w2), 0, "made from rotation()"); gen::check(pp, gen::val(p), 0, "made from translation()");
                break;
            }
            default: {   // a copy
                const Watch wt(t.cells);
                std::decay_t<decltype(t.x.eval())> c = t.x.eval();
                X c2{t.x};
                c2.rotation() = w; c2.translation() = p;
                wt.only("", "changing a copy");
                gen::check(c2, ref::TW(gen::val(w).v, gen::val(p).v), 0, "copy with both parts set");
            }
        }
    }
    if (steps >= 2) s.nontrivial();
}
}  // namespace pt
#define PART_TRANSFORM(name, ...) FACET(name, 1) { pt::transform<__VA_ARGS__>(s); }
#define PART_TWIST(name, ...) FACET(name, 1) { pt::twist<__VA_ARGS__>(s); }
