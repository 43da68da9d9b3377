// Derivatives of a reference program by the chain rule, and the accuracy that can be expected of the library:
// the program is also run several times with every intermediate value and derivative disturbed by a few rounding
// errors; the spread of the results is the tolerance. This judges leaf values of any magnitude, where finite
// differences of a whole program and a fixed tolerance say nothing.
#pragma once
#include "gen.hpp"
namespace rp {
using ref::F; using ref::Val; using ref::Mat;
struct Trace {
    bool noisy = false;
    uint64_t state = 0;
    std::vector<std::vector<Mat>> J;   // node -> leaf -> derivative (0 x 0: none)
    F rnd() {
        state = state * 6364136223846793005ull + 1442695040888963407ull;
        return ((state >> 33) & 0xffffff) / (F) 0x800000 - 1;
    }
};
inline Trace *&trace() { static thread_local Trace *t = nullptr; return t; }
inline bool &wide() { static thread_local bool w = false; return w; }
/** draws, for one case, whether leaves have ordinary values or values of any magnitude */
struct Regime {
    explicit Regime(pbt::Source &s) { wide() = s.below(3) == 2; if (wide()) s.label("wide"); }
    ~Regime() { wide() = false; }
};
using Op = Val (*)(const Val &, const Val &);
enum Kind { LINEAR, DOT, OUT, EXP, LOG, ACOS };   // how the rounding error of an operation relates to its operands

inline F size(const Val &a) {
    switch (a.k) {
        case ref::SCALAR: return std::fabs(a.s);
        case ref::ROT: return 0;
        case ref::TWIST: return std::max(ref::norm3(a.v), ref::norm3(a.u));
        default: return ref::norm3(a.v);
    }
}
constexpr F U = 4e-16L;
inline void disturb(Trace &t, Val &r, F rotation, F rest) {
    auto vec = [&](ref::V3 &v, F k) { for (int i = 0; i < 3; ++i) v[i] += k * t.rnd(); };
    if (r.k == ref::ROT || r.k == ref::RT) {
        ref::V3 d; vec(d, rotation);
        r.R = ref::expSO3(d) * r.R;
    }
    if (r.k == ref::SCALAR) r.s += rest * t.rnd();
    if (r.k == ref::VEC || r.k == ref::RT || r.k == ref::TWIST) vec(r.v, rest);
    if (r.k == ref::TWIST) vec(r.u, rest);
}
/** derivative of one operation; steps follow the magnitudes */
inline Mat local(Op f, const Val &a, const Val &b, int which, Kind kind) {
    const Val f0 = f(a, b), &x = which ? b : a;
    const F big = std::max(size(a), size(b));
    Mat J(ref::dof(f0), ref::dof(x));
    for (int c = 0; c < J.c; ++c) {
        F h = 1e-4L;
        if (x.k == ref::RT && c >= 3) h *= std::max<F>(1, big);
        if (x.k == ref::SCALAR || x.k == ref::VEC || x.k == ref::TWIST) {
            if (kind == OUT) h *= size(x) > 0 ? size(x) : 1;
            else if (kind == EXP) h *= c >= 3 ? std::max<F>(1, big) : 1;
            else h *= big > 0 ? big : 1;
        }
        auto at = [&](F d) { const Val y = ref::perturb(x, c, d); return ref::diff(which ? f(a, y) : f(y, b), f0); };
        auto p1 = at(h), m1 = at(-h), p2 = at(2 * h), m2 = at(-2 * h);
        for (int r = 0; r < J.r; ++r) J(r, c) = (8 * (p1[r] - m1[r]) - (p2[r] - m2[r])) / (12 * h);
    }
    return J;
}
inline Mat times(const Mat &a, const Mat &b) {
    Mat r(a.r, b.c);
    for (int i = 0; i < a.r; ++i) for (int j = 0; j < b.c; ++j) for (int k = 0; k < a.c; ++k) r(i, j) += a(i, k) * b(k, j);
    return r;
}
inline Mat inverted(Mat a) {
    const int n = a.r;
    Mat b(n, n);
    for (int i = 0; i < n; ++i) b(i, i) = 1;
    for (int c = 0; c < n; ++c) {
        int p = c;
        for (int i = c + 1; i < n; ++i) if (std::fabs(a(i, c)) > std::fabs(a(p, c))) p = i;
        for (int j = 0; j < n; ++j) { std::swap(a(p, j), a(c, j)); std::swap(b(p, j), b(c, j)); }
        const F d = a(c, c);
        for (int j = 0; j < n; ++j) { a(c, j) /= d; b(c, j) /= d; }
        for (int i = 0; i < n; ++i) if (i != c) {
            const F m = a(i, c);
            for (int j = 0; j < n; ++j) { a(i, j) -= m * a(c, j); b(i, j) -= m * b(c, j); }
        }
    }
    return b;
}
/** extra error of the Jacobians of exp and log just above the angle where they switch to a series (see C06) */
inline F roughness(const Val &a) {
    const F th = ref::norm3(a.v);
    return th > 1e-9L ? 5e-17L / th : 0;
}
/** the result of an operation, entered in the trace if there is one */
inline Val rec(Op f, Kind kind, const Val &a, const Val *pb = nullptr) {
    const Val &b = pb ? *pb : a;
    Val r = f(a, b);
    r.id = -1;
    Trace *t = trace();
    if (!t) return r;
    const F m = std::max(std::max(size(r), size(a)), pb ? size(b) : 0);
    if (t->noisy) {
        if (kind == EXP) disturb(*t, r, 10 * U * (1 + ref::norm3(a.v)), 10 * U * (1 + ref::norm3(a.v)) * ref::norm3(a.u));
        else if (kind == LOG) disturb(*t, r, 0, 10 * U * (1 + size(a)));
        else if (kind == DOT) disturb(*t, r, 0, U * size(a) * size(b) * 2);
        else if (kind == OUT) disturb(*t, r, 0, U * size(r) * 2);
        else disturb(*t, r, U, U * m);
    }
    if (a.id < 0 && (!pb || b.id < 0)) return r;
    std::vector<Mat> J;
    for (int which = 0; which < (pb ? 2 : 1); ++which) {
        const Val &x = which ? b : a;
        if (x.id < 0) continue;
        Mat L;
        F noise;
        if (kind == LOG) {
            const Mat E = local([](const Val &v, const Val &) { return ref::exp(v); }, f(a, b), a, 0, EXP);
            L = inverted(E);
            noise = (2.5e-14L + roughness(f(a, b))) * (1 + E.maxabs()) * L.maxabs();
        } else if (kind == ACOS) {
            L = Mat(1, 1);
            L(0, 0) = -1 / std::sqrt(1 - a.s * a.s);
            noise = 2 * U * L.maxabs();
        } else {
            L = local(f, a, b, which, kind);
            noise = U * L.maxabs();
        }
        if (kind == EXP) {
            noise = (2e-14L + roughness(a)) * (1 + size(a) + L.maxabs());
        }
        if (t->noisy) for (auto &v : L.a) v += noise * t->rnd();
        J.resize(t->J[x.id].size());
        for (size_t l = 0; l < J.size(); ++l) {
            const Mat &P = t->J[x.id][l];
            if (!P.r) continue;
            Mat Q = times(L, P);
            if (J[l].r) for (size_t i = 0; i < Q.a.size(); ++i) Q.a[i] += J[l].a[i];
            J[l] = Q;
        }
    }
    r.id = (int) t->J.size();
    t->J.push_back(J);
    return r;
}
/** value and derivatives of f at l, with the deviations that rounding can cause */
struct Traced {
    Val value; std::vector<Mat> J;
    F dv = 0; std::vector<F> dj;
    Traced(const ref::Fn &f, const std::vector<Val> &l) : dj(l.size(), 0) {
        for (int i = 0; i < 4; ++i) {
            Trace t;
            t.noisy = i > 0;
            t.state = 77 * i;
            std::vector<Val> x = l;
            for (size_t k = 0; k < x.size(); ++k) {
                if (t.noisy) disturb(t, x[k], U, U * size(x[k]));
                x[k].id = (int) k;
                t.J.emplace_back(l.size());
                Mat I(ref::dof(x[k]), ref::dof(x[k]));
                for (int a = 0; a < I.r; ++a) I(a, a) = 1;
                t.J.back()[k] = I;
            }
            struct Active { Active(Trace *t) { trace() = t; } ~Active() { trace() = nullptr; } } active{&t};
            const Val v = f(x);
            std::vector<Mat> J(l.size());
            if (v.id >= 0) J = t.J[v.id];
            J.resize(l.size());
            for (size_t k = 0; k < l.size(); ++k) if (!J[k].r) J[k] = Mat(ref::dof(v), ref::dof(l[k]));
            if (!i) { value = v; this->J = J; continue; }
            dv = std::max(dv, ref::dist(v, value));
            for (size_t k = 0; k < l.size(); ++k) for (size_t n = 0; n < J[k].a.size(); ++n) dj[k] = std::max(dj[k], std::fabs(J[k].a[n] - this->J[k].a[n]));
        }
        value.id = -1;
    }
};
}  // namespace rp
