// Independent reference model, in long double. It shares no code with the library (nor with
// Eigen): rotations are 3x3 matrices, rigid transforms are (R, t) pairs. A value is a tagged
// record, so reference programs are written with overloaded functions over `ref::Val`.
//
// Conventions (docs/manifold_operations.md, README):
//   X + v = exp(v) * X   (left perturbation),  X - Y = log(X * inverse(Y)),
//   twist = [rotation; translation], tangent of a rigid transform in the same order.
#pragma once
#include <cmath>
#include <functional>
#include <ostream>
#include <stdexcept>
#include <vector>

namespace ref {
using F = long double;
constexpr F PI = 3.14159265358979323846264338327950288L;

struct V3 {
    F x[3] = {0, 0, 0};
    F &operator[](int i) { return x[i]; }
    F operator[](int i) const { return x[i]; }
};
inline V3 operator+(V3 a, V3 b) { return {{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
inline V3 operator-(V3 a, V3 b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
inline V3 operator-(V3 a) { return {{-a[0], -a[1], -a[2]}}; }
inline V3 operator*(F s, V3 a) { return {{s * a[0], s * a[1], s * a[2]}}; }
inline F dot3(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline F norm3(V3 a) { return std::sqrt(dot3(a, a)); }
inline V3 cross3(V3 a, V3 b) {
    return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}};
}

struct M3 {
    F a[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
    F &operator()(int i, int j) { return a[i][j]; }
    F operator()(int i, int j) const { return a[i][j]; }
};
inline M3 I3() { M3 m; for (int i = 0; i < 3; ++i) m(i, i) = 1; return m; }
inline M3 operator+(const M3 &x, const M3 &y) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = x(i, j) + y(i, j); return r; }
inline M3 operator-(const M3 &x, const M3 &y) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = x(i, j) - y(i, j); return r; }
inline M3 operator*(F s, const M3 &y) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = s * y(i, j); return r; }
inline M3 operator*(const M3 &x, const M3 &y) {
    M3 r;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r(i, j) += x(i, k) * y(k, j);
    return r;
}
inline V3 operator*(const M3 &x, const V3 &v) { V3 r; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) r[i] += x(i, k) * v[k]; return r; }
inline M3 T(const M3 &x) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = x(j, i); return r; }
inline M3 hat(const V3 &v) { M3 m; m(0, 1) = -v[2]; m(0, 2) = v[1]; m(1, 0) = v[2]; m(1, 2) = -v[0]; m(2, 0) = -v[1]; m(2, 1) = v[0]; return m; }
inline F det3(const M3 &m) {
    return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
}
inline F maxabs(const M3 &m) { F r = 0; for (auto &row : m.a) for (F v : row) r = std::max(r, std::fabs(v)); return r; }
inline F maxabs(const V3 &m) { F r = 0; for (F v : m.x) r = std::max(r, std::fabs(v)); return r; }

// ---- coefficient functions, accurate for all theta ---------------------------------------
inline F coefA(F t2) {   // sin t / t
    if (t2 < 1e-2L) { F s = 1, term = 1; for (int k = 1; k < 12; ++k) { term *= -t2 / ((2 * k) * (2 * k + 1)); s += term; } return s; }
    F t = std::sqrt(t2); return std::sin(t) / t;
}
inline F coefB(F t2) {   // (1 - cos t) / t^2
    if (t2 < 1e-2L) { F s = 0.5L, term = 0.5L; for (int k = 1; k < 12; ++k) { term *= -t2 / ((2 * k + 1) * (2 * k + 2)); s += term; } return s; }
    F t = std::sqrt(t2), h = std::sin(t / 2); return 2 * h * h / t2;
}
inline F coefC(F t2) {   // (t - sin t) / t^3
    if (t2 < 1e-2L) { F s = 1 / 6.0L, term = 1 / 6.0L; for (int k = 1; k < 12; ++k) { term *= -t2 / ((2 * k + 2) * (2 * k + 3)); s += term; } return s; }
    F t = std::sqrt(t2); return (t - std::sin(t)) / (t * t2);
}
inline F coefD(F t2) {   // (1 - (t/2) cot(t/2)) / t^2  : coefficient of hat^2 in Jl^-1
    if (t2 < 1e-3L) {    // 1/12 + t^2/720 + t^4/30240 + t^6/1209600 + t^8/47900160 + 691 t^10/1307674368000
        return 1 / 12.0L + t2 * (1 / 720.0L + t2 * (1 / 30240.0L + t2 * (1 / 1209600.0L + t2 * (1 / 47900160.0L + t2 * 691 / 1307674368000.0L))));
    }
    F t = std::sqrt(t2), h = t / 2; return (1 - h * std::cos(h) / std::sin(h)) / t2;
}
inline M3 expSO3(const V3 &w) {
    F t2 = dot3(w, w); M3 H = hat(w);
    return I3() + coefA(t2) * H + coefB(t2) * (H * H);
}
inline M3 Jl(const V3 &w) { F t2 = dot3(w, w); M3 H = hat(w); return I3() + coefB(t2) * H + coefC(t2) * (H * H); }
inline M3 JlInv(const V3 &w) { F t2 = dot3(w, w); M3 H = hat(w); return I3() - 0.5L * H + coefD(t2) * (H * H); }
/** unit quaternion (x,y,z,w) with w >= 0 (Shepperd's method, picks the largest pivot) */
inline void toQuat(const M3 &R, F q[4]) {
    F tr = R(0, 0) + R(1, 1) + R(2, 2);
    F d[4] = {R(0, 0), R(1, 1), R(2, 2), tr};
    int b = 0; for (int i = 1; i < 4; ++i) if (d[i] > d[b]) b = i;
    if (b == 3) { q[3] = 1 + tr; q[0] = R(2, 1) - R(1, 2); q[1] = R(0, 2) - R(2, 0); q[2] = R(1, 0) - R(0, 1); }
    else {
        int i = b, j = (b + 1) % 3, k = (b + 2) % 3;
        q[i] = 1 + 2 * R(i, i) - tr; q[j] = R(i, j) + R(j, i); q[k] = R(i, k) + R(k, i); q[3] = R(k, j) - R(j, k);
    }
    F n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
    F s = (q[3] < 0 ? -1 : 1) / n;
    for (int i = 0; i < 4; ++i) q[i] *= s;
}
inline V3 logSO3(const M3 &R) {
    F q[4]; toQuat(R, q);
    V3 v{{q[0], q[1], q[2]}};
    F n = norm3(v);
    F k = n < 1e-8L ? 2 / q[3] * (1 - n * n / (3 * q[3] * q[3])) : 2 * std::atan2(n, q[3]) / n;
    return k * v;
}
inline M3 fromQuat(F x, F y, F z, F w) {
    F n2 = x * x + y * y + z * z + w * w;
    M3 m; F s = 2 / n2;
    m(0, 0) = 1 - s * (y * y + z * z); m(0, 1) = s * (x * y - w * z); m(0, 2) = s * (x * z + w * y);
    m(1, 0) = s * (x * y + w * z); m(1, 1) = 1 - s * (x * x + z * z); m(1, 2) = s * (y * z - w * x);
    m(2, 0) = s * (x * z - w * y); m(2, 1) = s * (y * z + w * x); m(2, 2) = 1 - s * (x * x + y * y);
    return m;
}

// ---- tagged values ---------------------------------------------------------------------
enum Kind { SCALAR, VEC, TWIST, ROT, RT };
struct Val {
    Kind k = SCALAR;
    F s = 0;
    V3 v;   // vector, twist rotation part, or translation of an RT
    V3 u;   // twist translation part
    M3 R;
    int id = -1;   // node number while a program is traced (trace.hpp)
};
inline Val S(F s) { Val r; r.k = SCALAR; r.s = s; return r; }
inline Val V(V3 v) { Val r; r.k = VEC; r.v = v; return r; }
inline Val TW(V3 w, V3 u) { Val r; r.k = TWIST; r.v = w; r.u = u; return r; }
inline Val Ro(M3 R) { Val r; r.k = ROT; r.R = R; return r; }
inline Val Tf(M3 R, V3 t) { Val r; r.k = RT; r.R = R; r.v = t; return r; }
[[noreturn]] inline void bad(const char *m) { throw std::logic_error(std::string("reference model: ") + m); }

inline int dof(const Val &a) { return a.k == SCALAR ? 1 : (a.k == VEC || a.k == ROT) ? 3 : 6; }

inline Val mul(const Val &a, const Val &b) {
    if (a.k == SCALAR && b.k == SCALAR) return S(a.s * b.s);
    if (a.k == SCALAR && b.k == VEC) return V(a.s * b.v);
    if (a.k == VEC && b.k == SCALAR) return V(b.s * a.v);
    if (a.k == SCALAR && b.k == TWIST) return TW(a.s * b.v, a.s * b.u);
    if (a.k == TWIST && b.k == SCALAR) return TW(b.s * a.v, b.s * a.u);
    if (a.k == ROT && b.k == VEC) return V(a.R * b.v);
    if (a.k == RT && b.k == VEC) return V(a.R * b.v + a.v);
    if (a.k == ROT && b.k == ROT) return Ro(a.R * b.R);
    if (a.k == RT && b.k == RT) return Tf(a.R * b.R, a.R * b.v + a.v);
    if (a.k == ROT && b.k == RT) return Tf(a.R * b.R, a.R * b.v);
    if (a.k == RT && b.k == ROT) return Tf(a.R * b.R, a.v);
    bad("mul");
}
inline Val inv(const Val &a) {
    if (a.k == ROT) return Ro(T(a.R));
    if (a.k == RT) return Tf(T(a.R), -(T(a.R) * a.v));
    bad("inv");
}
inline Val exp(const Val &a) {
    if (a.k == VEC) return Ro(expSO3(a.v));
    if (a.k == TWIST) return Tf(expSO3(a.v), Jl(a.v) * a.u);
    bad("exp");
}
inline Val log(const Val &a) {
    if (a.k == ROT) return V(logSO3(a.R));
    if (a.k == RT) { V3 w = logSO3(a.R); return TW(w, JlInv(w) * a.v); }
    bad("log");
}
inline Val neg(const Val &a) {
    if (a.k == SCALAR) return S(-a.s);
    if (a.k == VEC) return V(-a.v);
    if (a.k == TWIST) return TW(-a.v, -a.u);
    bad("neg");
}
inline Val add(const Val &a, const Val &b) {
    if (a.k == SCALAR && b.k == SCALAR) return S(a.s + b.s);
    if (a.k == VEC && b.k == VEC) return V(a.v + b.v);
    if (a.k == TWIST && b.k == TWIST) return TW(a.v + b.v, a.u + b.u);
    if (a.k == ROT && b.k == VEC) return mul(exp(b), a);
    if (a.k == RT && b.k == TWIST) return mul(exp(b), a);
    bad("add");
}
inline Val sub(const Val &a, const Val &b) {
    if ((a.k == ROT || a.k == RT) && a.k == b.k) return log(mul(a, inv(b)));
    return add(a, neg(b));
}
inline Val divi(const Val &a, const Val &b) {
    if (b.k != SCALAR) bad("div");
    if (a.k == SCALAR) return S(a.s / b.s);
    if (a.k == VEC) return V({{a.v[0] / b.s, a.v[1] / b.s, a.v[2] / b.s}});
    if (a.k == TWIST) return TW((1 / b.s) * a.v, (1 / b.s) * a.u);
    bad("div");
}
inline F dotf(const Val &a, const Val &b) {
    if (a.k == SCALAR && b.k == SCALAR) return a.s * b.s;
    if (a.k == VEC && b.k == VEC) return dot3(a.v, b.v);
    if (a.k == TWIST && b.k == TWIST) return dot3(a.v, b.v) + dot3(a.u, b.u);
    bad("dot");
}
inline Val dot(const Val &a, const Val &b) { return S(dotf(a, b)); }
inline Val sqn(const Val &a) { return S(dotf(a, a)); }
inline Val nrm(const Val &a) { return S(std::sqrt(dotf(a, a))); }
inline Val nrmd(const Val &a) { return divi(a, nrm(a)); }
inline Val acosv(const Val &a) { return S(std::acos(a.s)); }
inline Val rot(const Val &a) { if (a.k == RT || a.k == ROT) return Ro(a.R); if (a.k == TWIST) return V(a.v); bad("rot"); }
inline Val trans(const Val &a) { if (a.k == RT) return V(a.v); if (a.k == TWIST) return V(a.u); bad("trans"); }

inline F component(const Val &a, int i) {
    switch (a.k) {
        case SCALAR: return a.s;
        case VEC: return a.v[i];
        case TWIST: return i < 3 ? a.v[i] : a.u[i - 3];
        default: bad("component");
    }
}
/** X [+] h e_i */
inline Val perturb(const Val &a, int i, F h) {
    V3 d; d[i % 3] = h;
    switch (a.k) {
        case SCALAR: return S(a.s + h);
        case VEC: return V(a.v + d);
        case TWIST: return i < 3 ? TW(a.v + d, a.u) : TW(a.v, a.u + d);
        case ROT: return Ro(expSO3(d) * a.R);
        case RT: return i < 3 ? mul(exp(TW(d, V3{})), a) : mul(exp(TW(V3{}, d)), a);
    }
    bad("perturb");
}
/** tangent difference, as a flat vector */
inline std::vector<F> diff(const Val &a, const Val &b) {
    Val d = sub(a, b);
    std::vector<F> r(dof(a));
    for (int i = 0; i < (int) r.size(); ++i) r[i] = component(d, i);
    return r;
}
/** maximum absolute difference of the entries (matrix entries for rotations) */
inline F dist(const Val &a, const Val &b) {
    if (a.k != b.k) bad("dist of different kinds");
    switch (a.k) {
        case SCALAR: return std::fabs(a.s - b.s);
        case VEC: return maxabs(a.v - b.v);
        case TWIST: return std::max(maxabs(a.v - b.v), maxabs(a.u - b.u));
        case ROT: return maxabs(a.R - b.R);
        case RT: return std::max(maxabs(a.R - b.R), maxabs(a.v - b.v));
    }
    bad("dist");
}
inline F mag(const Val &a) {
    switch (a.k) {
        case SCALAR: return std::fabs(a.s);
        case VEC: return maxabs(a.v);
        case TWIST: return std::max(maxabs(a.v), maxabs(a.u));
        case ROT: return 1;
        case RT: return std::max<F>(1, maxabs(a.v));
    }
    bad("mag");
}
inline bool finite(const Val &a) {
    F s = a.s;
    for (int i = 0; i < 3; ++i) { s += a.v[i] + a.u[i]; for (int j = 0; j < 3; ++j) s += a.R(i, j); }
    return std::isfinite(s);
}

/** dense row-major matrix of reference Jacobian entries */
struct Mat {
    int r = 0, c = 0;
    std::vector<F> a;
    Mat() = default;
    Mat(int r_, int c_) : r(r_), c(c_), a(r_ * c_, 0) {}
    F &operator()(int i, int j) { return a[i * c + j]; }
    F operator()(int i, int j) const { return a[i * c + j]; }
    F maxabs() const { F m = 0; for (F v : a) m = std::max(m, std::fabs(v)); return m; }
};
using Fn = std::function<Val(const std::vector<Val> &)>;
/** Jacobian of f w.r.t. leaf i by 4th-order central differences */
inline Mat numJac(const Fn &f, std::vector<Val> L, int i, F h = 1e-4L) {
    const Val f0 = f(L);
    const Val x = L[i];
    Mat J(dof(f0), dof(x));
    for (int c = 0; c < J.c; ++c) {
        auto at = [&](F d) { L[i] = perturb(x, c, d); return diff(f(L), f0); };
        auto p1 = at(h), m1 = at(-h), p2 = at(2 * h), m2 = at(-2 * h);
        for (int r = 0; r < J.r; ++r) J(r, c) = (8 * (p1[r] - m1[r]) - (p2[r] - m2[r])) / (12 * h);
    }
    return J;
}

inline std::ostream &operator<<(std::ostream &o, const V3 &v) { return o << "[" << (double) v[0] << "," << (double) v[1] << "," << (double) v[2] << "]"; }
inline std::ostream &operator<<(std::ostream &o, const M3 &m) {
    o << "["; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o << (double) m(i, j) << (j < 2 ? "," : i < 2 ? ";" : ""); return o << "]";
}
inline std::ostream &operator<<(std::ostream &o, const Val &a) {
    switch (a.k) {
        case SCALAR: return o << (double) a.s;
        case VEC: return o << a.v;
        case TWIST: return o << "tw(" << a.v << a.u << ")";
        case ROT: return o << "R" << a.R << " log=" << logSO3(a.R);
        case RT: return o << "T(" << a.R << "," << a.v << ")";
    }
    return o;
}
inline std::ostream &operator<<(std::ostream &o, const Mat &m) {
    for (int i = 0; i < m.r; ++i) { o << (i ? "; " : "["); for (int j = 0; j < m.c; ++j) o << (j ? "," : "") << (double) m(i, j); }
    return o << "]";
}
}  // namespace ref
