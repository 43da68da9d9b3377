// Leaves over external memory against owning leaves ("twins") with the same numbers. Every number of the surrounding
// memory which the leaf does not represent must keep its bits.
#pragma once
#include "reps.hpp"
#include <memory>
#include <cstring>
namespace ext {
using namespace reps;
using ref::Val; using ref::Mat;
using Eigen::Map; using Eigen::Block; using Eigen::InnerStride; using Eigen::OuterStride; using Eigen::Stride; using Eigen::Dynamic;
using M3 = Eigen::Matrix3d; using M4 = Eigen::Matrix4d; using V3 = Eigen::Vector3d; using Q = Eigen::Quaterniond; using V6 = Eigen::Matrix<double, 6, 1>;
using R3 = Eigen::Matrix<double, 3, 3, Eigen::RowMajor>; using R4 = Eigen::Matrix<double, 4, 4, Eigen::RowMajor>;
using BigC = Eigen::Matrix<double, 9, 8>; using BigR = Eigen::Matrix<double, 9, 8, Eigen::RowMajor>;

/** Memory: what surrounds a storage object of the given type, and how to make the object */
template <typename I> struct Mem;
struct Raw {
    static constexpr int N = 100;
    std::unique_ptr<double[]> p{new double[N]};
    double *data() { return p.get(); }
    int size() const { return N; }
};
template <typename M, int Opt> struct Mem<Map<M, Opt, Stride<0, 0>>> : Raw { Map<M, Opt> make() { return Map<M, Opt>(data() + (Opt ? 16 : 17)); } };
template <typename M, int Opt> struct Mem<Map<const M, Opt, Stride<0, 0>>> : Raw { Map<const M, Opt> make() { return Map<const M, Opt>(data() + 17); } };
template <typename M, int K> struct Mem<Map<M, 0, InnerStride<K>>> : Raw { Map<M, 0, InnerStride<K>> make() { return Map<M, 0, InnerStride<K>>(data() + 13); } };
template <typename M, int K> struct Mem<Map<M, 0, OuterStride<K>>> : Raw { Map<M, 0, OuterStride<K>> make() { return Map<M, 0, OuterStride<K>>(data() + 11); } };
template <typename M> struct Mem<Map<M, 0, Stride<Dynamic, Dynamic>>> : Raw { Map<M, 0, Stride<Dynamic, Dynamic>> make() { return Map<M, 0, Stride<Dynamic, Dynamic>>(data() + 3, Stride<Dynamic, Dynamic>(17, 3)); } };
template <> struct Mem<Map<Q>> : Raw { Map<Q> make() { return Map<Q>(data() + 19); } };
template <> struct Mem<Map<const Q>> : Raw { Map<const Q> make() { return Map<const Q>(data() + 19); } };
template <typename P, int R, int C, bool In> struct Mem<Block<P, R, C, In>> {
    std::unique_ptr<P> p{new P};
    Mem() { if (P::RowsAtCompileTime == Dynamic || P::ColsAtCompileTime == Dynamic) p->resize(P::RowsAtCompileTime == 1 ? 1 : 10, P::ColsAtCompileTime == 1 ? 1 : 9); }
    double *data() { return p->data(); }
    int size() const { return (int) p->size(); }
    Block<P, R, C, In> make() { return In ? Block<P, R, C, In>(*p, 0, 2) : Block<P, R, C, In>(*p, 2, P::ColsAtCompileTime == 1 ? 0 : 3); }
};
template <typename X> auto coefPtrs(Eigen::DenseBase<X> &x) {
    std::vector<const double *> v;
    for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j) v.push_back(&x.derived().coeffRef(i, j));
    return v;
}
template <typename X> std::vector<const double *> ptrsOf(X &x) {
    if constexpr (std::is_base_of<Eigen::QuaternionBase<X>, X>::value) { std::vector<const double *> v; for (int i = 0; i < 4; ++i) v.push_back(&x.coeffs().coeff(i)); return v; }
    else { std::vector<const double *> v; for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j) v.push_back(&x.coeffRef(i, j)); return v; }
}
template <typename X> std::vector<const double *> ptrsOf(const X &x) {
    if constexpr (std::is_base_of<Eigen::QuaternionBase<X>, X>::value) { std::vector<const double *> v; for (int i = 0; i < 4; ++i) v.push_back(&x.coeffs().coeff(i)); return v; }
    else { std::vector<const double *> v; for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j) v.push_back(&x.coeffRef(i, j)); return v; }
}
inline bool bitsDiffer(double a, double b) { return std::memcmp(&a, &b, 8) != 0; }

/** coefficients of an owned value, in the order of ptrsOf */
template <typename X> void put(std::vector<double> &o, const X &x) { for (auto *p : ptrsOf(x)) o.push_back(*p); }
template <typename T> std::vector<double> numbers(const T &leaf) { std::vector<double> o; put(o, leaf.value()); return o; }
template <typename A1, typename B1> std::vector<double> numbers(const wave::CompactRigidTransform<A1, B1> &leaf) {
    std::vector<double> o; put(o, leaf.rotationBlock().value()); put(o, leaf.translationBlock().value()); return o;
}
template <typename L, typename... Fr> std::vector<double> numbers(const wave::Framed<L, Fr...> &f) { return numbers(gen::unframed(f)); }

/** memory with a leaf over it */
template <typename Leaf, typename I> struct One {
    Mem<I> mem; I impl; Leaf leaf;
    One() : mem(), impl(mem.make()), leaf(I(impl)) {}
    One(const One &) = delete;
    struct Region { double *p; int n; std::vector<int> at; };
    std::vector<Region> regions() { Region r{mem.data(), mem.size(), {}}; for (auto *q : ptrsOf(impl)) r.at.push_back((int) (q - mem.data())); return {r}; }
};
template <typename Leaf, typename I1, typename I2> struct Two {
    Mem<I1> m1; Mem<I2> m2; I1 i1; I2 i2; Leaf leaf;
    Two() : m1(), m2(), i1(m1.make()), i2(m2.make()), leaf(I1(i1), I2(i2)) {}
    Two(const Two &) = delete;
    struct Region { double *p; int n; std::vector<int> at; };
    std::vector<Region> regions() {
        Region a{m1.data(), m1.size(), {}}, b{m2.data(), m2.size(), {}};
        for (auto *q : ptrsOf(i1)) a.at.push_back((int) (q - m1.data()));
        for (auto *q : ptrsOf(i2)) b.at.push_back((int) (q - m2.data()));
        return {a, b};
    }
};

struct Others {   // operands that own their values
    wave::RotationMd r; wave::RotationQd q; wave::RotationAd a; wave::RelativeRotationd w; wave::Translationd p; wave::Pointd o; wave::Twistd x; wave::RigidTransformMd t; wave::RigidTransformQd c; double k;
    static gen::Opt o_() { gen::Opt o; o.ang = gen::TAME; o.tmax = 5; o.smax = 3; o.nonzero = true; return o; }
    explicit Others(pbt::Source &s)
        : r(gen::Leaf<wave::RotationMd>::make(s, o_())), q(gen::Leaf<wave::RotationQd>::make(s, o_())), a(gen::Leaf<wave::RotationAd>::make(s, o_())), w(gen::Leaf<wave::RelativeRotationd>::make(s, o_())),
          p(gen::Leaf<wave::Translationd>::make(s, o_())), o(gen::Leaf<wave::Pointd>::make(s, o_())), x(gen::Leaf<wave::Twistd>::make(s, o_())), t(gen::Leaf<wave::RigidTransformMd>::make(s, o_())),
          c(gen::Leaf<wave::RigidTransformQd>::make(s, o_())), k(gen::nonzero(s, 3)) {}
};
/** the same, in frame A throughout */
template <typename T> using F2 = wave::Framed<T, A, A>;
template <typename T> using F3 = wave::Framed<T, A, A, A>;
struct FOthers {
    F2<wave::RotationMd> r; F2<wave::RotationQd> q; F2<wave::RotationAd> a; F3<wave::RelativeRotationd> w; F3<wave::Translationd> p; F2<wave::Pointd> o; F3<wave::Twistd> x; F2<wave::RigidTransformMd> t; F2<wave::RigidTransformQd> c; double k;
    explicit FOthers(const Others &o_) : r(o_.r.value()), q(o_.q.value()), a(o_.a.value()), w(o_.w.value()), p(o_.p.value()), o(o_.o.value()), x(o_.x.value()), t(o_.t.value()), c(o_.c.rotation().eval().value(), o_.c.translation().eval().value()), k(o_.k) {}
};

/** value, Jacobians in three ways */
struct Out { Val v; std::vector<Mat> J; size_t numeric = 0; };
template <typename E, typename... Ls> Out out(const E &e, const Ls &... ls) {
    Out o;
    o.v = gen::val(wave::eval(e));
    (o.J.push_back(gen::mat(e.jacobian(ls))), ...);
    o.numeric = o.J.size();
    return o;
}
/** ... in four modes */
template <typename E, typename... Ls> Out full(const E &e, const Ls &... ls) {
    Out o = out(e, ls...);
    (o.J.push_back(gen::mat(wave::internal::evaluateDynamicJacobian(e, ls))), ...);
    const auto r = wave::internal::evaluateWithDynamicReverseJacobians(e);
    (o.J.push_back(gen::mat(r.second.at(&ls))), ...);
    o.numeric = o.J.size();
    (o.J.push_back(gen::mat(wave::evaluateNumericalJacobian(e, ls))), ...);
    return o;
}
template <typename T> Out only(const T &x) { Out o; o.v = gen::val(x); return o; }
inline Out yes(bool b) { Out o; o.v = ref::S(b); return o; }
inline void same(const Out &got, const Out &want, const std::string &what) {
    const F m = ref::mag(want.v);
    if (!std::isfinite(m)) return;   // outside the operation's domain
    gen::close(got.v, want.v, 1e-12L * (1 + m), what + ": value");
    F jm = 1;
    for (auto &j : want.J) jm = std::max(jm, j.maxabs());
    for (auto &j : want.J) for (F x : j.a) if (!std::isfinite(x)) return;
    for (size_t i = 0; i < want.J.size(); ++i) gen::close(got.J[i], want.J[i], (i >= want.numeric ? 1e-5L * (1 + m) : 1e-11L) * jm, what + ": Jacobian " + std::to_string(i));
}

/**
 * S: a One<> or Two<>; Twin: the owning leaf. read(k, leaf, others) gives the k-th of NR results; write(s, k, leaf, others)
 * does the k-th of NW assignments.
 */
template <typename S, typename Twin, typename Kit, bool Const = false, typename Ot = Others>
void history(pbt::Source &s) {
    const Others base(s);
    const Ot ot(base);
    S st;
    auto regs = st.regions();
    std::vector<std::vector<double>> model;
    for (auto &r : regs) {
        std::vector<double> m;
        for (int i = 0; i < r.n; ++i) { const double g = 7e77 + i * 1e70; r.p[i] = g; m.push_back(g); }
        model.push_back(m);
    }
    auto fill = [&](const Twin &t) {
        const auto v = numbers(t);
        size_t k = 0;
        for (size_t r = 0; r < regs.size(); ++r) for (int i : regs[r].at) { regs[r].p[i] = v.at(k++); }
    };
    std::string done = "";
    // memory against the twin; adopts the memory's numbers
    auto memory = [&](Twin &t, bool exact) {
        const auto v = numbers(t);
        F scale = 1;
        for (double d : v) scale = std::max(scale, (F) std::fabs(d));
        size_t k = 0;
        for (size_t r = 0; r < regs.size(); ++r) {
            std::vector<bool> ours(regs[r].n);
            for (int i : regs[r].at) {
                ours[i] = true;
                const double got = regs[r].p[i], want = v.at(k++);
                if (!(std::fabs((F) got - want) <= (exact ? 0 : 1e-12L * scale))) pbt::fail("memory holds ", got, " instead of ", want, " after", done);
                model[r][i] = got;
            }
            for (int i = 0; i < regs[r].n; ++i) if (!ours[i] && bitsDiffer(regs[r].p[i], model[r][i])) pbt::fail("wrote outside the leaf's memory (offset ", i, ") after", done);
        }
    };
    auto newTwin = [&] { return Kit::template draw<Twin>(s); };
    Twin twin = newTwin();
    fill(twin);
    memory(twin, true);
    const int n = s.range(1, 10);
    if (n > 1) s.nontrivial();
    for (int i = 0; i < n; ++i) {
        switch (s.below(Const ? 3 : 6)) {
            case 0: {   // somebody changes the memory
                twin = newTwin(); fill(twin); done += " memory";
                memory(twin, true);
                break;
            }
            case 1: case 2: {
                const int k = (int) s.below(Kit::NR);
                done += " read" + std::to_string(k);
                same(Kit::read(k, std::as_const(st.leaf), ot), Kit::read(k, std::as_const(twin), ot), "after" + done);
                memory(twin, true);
                break;
            }
            default:
                if constexpr (!Const) {
                    const int k = (int) s.below(Kit::NW + 4);
                    done += " write" + std::to_string(k);
                    if (k < Kit::NW) {
                        Kit::write(k, twin, ot); Kit::write(k, st.leaf, ot);
                        memory(twin, false);
                    } else if (k == Kit::NW) {   // copy of numbers from an owning leaf, and its value
                        const Twin t = newTwin();
                        twin = t;
                        st.leaf = t;
                        memory(twin, true);
                    } else if (k == Kit::NW + 1) {   // from a leaf of the same kind over other memory
                        S other; auto oreg = other.regions();
                        const Twin t = newTwin();
                        const auto v = numbers(t);
                        size_t q = 0;
                        for (auto &r : oreg) { for (int j = 0; j < r.n; ++j) r.p[j] = 5; for (int j : r.at) r.p[j] = v.at(q++); }
                        if (s.coin()) st.leaf = other.leaf;
                        else st.leaf = std::move(other.leaf);
                        twin = t;
                        memory(twin, true);
                        q = 0;
                        for (auto &r : oreg) for (int j : r.at) { if (bitsDiffer(r.p[j], v.at(q))) pbt::fail("assignment changed its source"); ++q; r.p[j] = 1e300; }
                        memory(twin, true);
                    } else if (k == Kit::NW + 2) {   // a copy of the leaf is over the same memory
                        auto copy = st.leaf;
                        const Twin t = newTwin();
                        copy = t;
                        twin = t;
                        memory(twin, true);
                    } else {   // exclusive ownership: an owning copy is independent
                        Twin own{st.leaf};
                        const auto before = numbers(own);
                        const Twin t = newTwin();
                        fill(t);
                        if (numbers(own) != before) pbt::fail("an owning copy changed with the memory");
                        twin = t;
                        memory(twin, true);
                    }
                    // a fresh twin, free of accumulated differences
                    const auto v = numbers(twin);
                    if (!Kit::tame(twin)) { twin = newTwin(); fill(twin); memory(twin, true); }
                    else Kit::template adopt<Twin>(twin, st.leaf);
                }
        }
    }
    s.note([&](std::ostream &o) { o << done; });
}
template <typename T> wave::internal::plain_output_t<T> plain(const T &x) { return wave::internal::plain_output_t<T>(x); }

// ---- what is read and written, per kind of element
struct Base0 {
    template <typename T> static T draw(pbt::Source &s) { return gen::Leaf<T>::make(s, Others::o_()); }
    template <typename Twin, typename L> static void adopt(Twin &t, const L &l) { t = l; }
    template <typename T> static bool tame(const T &t) {
        for (double d : numbers(t)) if (!(std::fabs(d) < 50)) return false;
        return gen::invalid(t) < 1e-12L;
    }
};
struct Rot : Base0 {
    enum { NR = 17, NW = 10 };
    template <typename X, typename O> static Out read(int k, const X &x, const O &o) {
        switch (k) {
            case 0: return only(x);
            case 1: return out(inverse(x), x);
            case 2: return full(x * o.r, x, o.r);
            case 3: return out(o.q * x, x, o.q);
            case 4: return out(x * o.p, x, o.p);
            case 5: return out(log(x), x);
            case 6: return full(x - o.r, x, o.r);
            case 7: return out(x + o.w, x, o.w);
            case 8: return out(o.a * x, x, o.a);
            case 9: return only(plain(x));
            case 10: return only(wave::eval(x));
            case 11: return yes(x.isApprox(o.r, 0.5));
            case 12: return out(inverse(x) * (o.a * x * o.p), x, o.a, o.p);
            case 13: { const auto e = x * inverse(o.r); return out(e, x, o.r); }
            case 14: return yes(o.q.isApprox(x, 0.7));
            case 15: return only(std::decay_t<decltype(o.q)>(x));
            default: return only(std::decay_t<decltype(o.a)>(x));
        }
    }
    template <typename X, typename O> static void write(int k, X &x, const O &o) {
        switch (k) {
            case 0: x = inverse(x); break;
            case 1: x = x * o.r; break;
            case 2: x = o.r * inverse(x); break;
            case 3: x = o.q; break;
            case 4: x = o.a; break;
            case 5: x = exp(o.w); break;
            case 6: x = x + o.w; break;
            case 7: x.value() = std::decay_t<decltype(plain(x).value())>(o.r.value()); break;
            case 8: x = o.q * o.a; break;
            default: x = x * x; break;
        }
    }
};
template <bool Angular> struct Vec : Base0 {
    enum { NR = Angular ? 14 : 13, NW = 8 };
    template <typename O> static auto &mate(const O &o) { if constexpr (Angular) return o.w; else return o.p; }
    template <typename X, typename O> static Out read(int k, const X &x, const O &o) {
        switch (k) {
            case 0: return only(x);
            case 1: return out(-x, x);
            case 2: return full(x + mate(o), x, mate(o));
            case 3: return out(mate(o) - x, x, mate(o));
            case 4: if constexpr (Angular) return out(o.r + x, x, o.r); else return out(o.r * x, x, o.r);
            case 5: return out(2.5 * x, x);
            case 6: return out(x / o.k, x);
            case 7: return out(x.norm(), x);
            case 8: return out(x.normalized(), x);
            case 9: return out(dot(x, mate(o)), x, mate(o));
            case 10: return only(wave::eval(x));
            case 11: return yes(x.isApprox(mate(o), 0.9) || x.isZero());
            case 12: return only(plain(x));
            default: if constexpr (Angular) return out(exp(x), x); else return only(x);
        }
    }
    template <typename X, typename O> static void write(int k, X &x, const O &o) {
        switch (k) {
            case 0: x = -x; break;
            case 1: x = x + mate(o); break;
            case 2: x = mate(o) - x; break;
            case 3: if constexpr (Angular) x = log(o.r); else x = o.r * x; break;
            case 4: x = x / 2.; break;
            case 5: x.value() = mate(o).value(); break;
            case 6: x = x.normalized(); break;
            default: x = mate(o); break;
        }
    }
};
struct Pt : Base0 {
    enum { NR = 8, NW = 6 };
    template <typename X, typename O> static Out read(int k, const X &x, const O &o) {
        switch (k) {
            case 0: return only(x);
            case 1: return out(x + o.p, x, o.p);
            case 2: return full(x - o.o, x, o.o);
            case 3: return out(x + (-o.p), x, o.p);
            case 4: return out((x + o.p) - o.o, x, o.p, o.o);
            case 5: return out(x - o.p, x, o.p);
            case 6: return only(plain(x));
            default: return yes(x.isApprox(o.o, 0.9));
        }
    }
    template <typename X, typename O> static void write(int k, X &x, const O &o) {
        switch (k) {
            case 0: x = x + o.p; break;
            case 1: x = (x + o.p) + o.p; break;
            case 2: x = x - o.p - o.p; break;
            case 3: x = o.o; break;
            case 4: x.value() = o.o.value(); break;
            default: x = x - o.p; break;
        }
    }
};
struct Tw : Base0 {
    enum { NR = 9, NW = 6 };
    template <typename X, typename O> static Out read(int k, const X &x, const O &o) {
        switch (k) {
            case 0: return only(x);
            case 1: return out(-x, x);
            case 2: return out(x + o.x, x, o.x);
            case 3: return full(exp(x), x);
            case 4: return out(o.x - x, x, o.x);
            case 5: return out(x / o.k, x);
            case 6: return only(plain(x));
            case 7: return out(o.t + x, x, o.t);
            default: return yes(x.isApprox(o.x, 0.9) || x.isZero());
        }
    }
    template <typename X, typename O> static void write(int k, X &x, const O &o) {
        switch (k) {
            case 0: x = -x; break;
            case 1: x = o.x - x; break;
            case 2: x = o.x; break;
            case 3: x.value() = o.x.value(); break;
            case 4: x = log(o.t); break;
            default: x = x / 2.; break;
        }
    }
};
template <bool MatrixType> struct Tr : Base0 {
    enum { NR = 15, NW = 9 };
    template <typename X, typename O> static Out read(int k, const X &x, const O &o) {
        switch (k) {
            case 0: return only(x);
            case 1: return out(inverse(x), x);
            case 2: return full(x * o.t, x, o.t);
            case 3: return out(o.c * x, x, o.c);
            case 4: return out(x * o.p, x, o.p);
            case 5: return out(log(x), x);
            case 6: return out(x - o.t, x, o.t);
            case 7: return full(x + o.x, x, o.x);
            case 8: return only(plain(x));
            case 9: return out(x.rotation() * o.p, x, o.p);
            case 10: return out(x.translation() + o.p, x, o.p);
            case 11: return only(std::decay_t<decltype(o.c)>(x));
            case 12: return only(std::decay_t<decltype(o.t)>(x));
            case 13: return yes(x.isApprox(o.t, 0.5));
            default: return out(inverse(x) * (o.c * x), x, o.c);
        }
    }
    template <typename X, typename O> static void write(int k, X &x, const O &o) {
        switch (k) {
            case 0: x = inverse(x); break;
            case 1: x = x * o.t; break;
            case 2: x = o.c * inverse(x); break;
            case 3: x = o.c; break;
            case 4: x = o.t; break;
            case 5: x = exp(o.x); break;
            case 6: x = x + o.x; break;
            case 7: x = x * x; break;
            default: x = o.t * o.c; break;
        }
    }
};
}  // namespace ext
