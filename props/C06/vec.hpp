#pragma once
#include "common.hpp"
/** derivative of the norm and of normalisation in closed form: finite differences fail near zero */
inline Mat row(const Val &x, F k) { Mat m(1, ref::dof(x)); for (int i = 0; i < m.c; ++i) m(0, i) = k * ref::component(x, i); return m; }
template <typename X> void vec1(Source &s) {
    Opt o; o.ang = gen::ANY;
    const X x = leaf<X>(s, o, "x");
    const Val v = val(x);
    const int n = ref::dof(v);
    const F r = nrmv(v);
    s.nontrivial();
    close(jac1(-x, x, "-x"), ncol(eye(n), -1), 1e-15L, "Jacobian of -x");
    close(jac1(x.squaredNorm(), x, "squaredNorm"), row(v, 2), 1e-14L * (1 + r), "Jacobian of squaredNorm");
    if (r > 1e-100L) {
        s.label("nonzero");
        close(jac1(x.norm(), x, "norm"), row(v, 1 / r), 1e-14L, "Jacobian of norm");
        Mat N(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) N(i, j) = ((i == j) - ref::component(v, i) * ref::component(v, j) / r / r) / r;
        close(jac1(x.normalized(), x, "normalized"), N, 1e-13L / r, "Jacobian of normalized");
    }
}
template <typename X> void vec2(Source &s) {
    Opt o; o.ang = gen::ANY;
    const X x = leaf<X>(s, o, "x"), y = leaf<X>(s, o, "y");
    const Val v = val(x), w = val(y);
    const int n = ref::dof(v);
    s.nontrivial();
    close(jac1(x + y, x, "x + y"), eye(n), 0, "Jacobian of x + y w.r.t. x");
    close(jac1(x + y, y, "x + y"), eye(n), 0, "Jacobian of x + y w.r.t. y");
    close(jac1(x - y, x, "x - y"), eye(n), 0, "Jacobian of x - y w.r.t. x");
    close(jac1(x - y, y, "x - y"), ncol(eye(n), -1), 0, "Jacobian of x - y w.r.t. y");
    close(jac1(dot(x, y), x, "dot"), row(w, 1), 0, "Jacobian of dot(x, y) w.r.t. x");
    close(jac1(dot(x, y), y, "dot"), row(v, 1), 0, "Jacobian of dot(x, y) w.r.t. y");
    // repeated operands: the sum of both
    close(jac1(x + x, x, "x + x"), ncol(eye(n), 2), 0, "Jacobian of x + x");
    close(jac1(x - x, x, "x - x"), Mat(n, n), 0, "Jacobian of x - x");
    close(jac1(dot(x, x), x, "dot(x, x)"), row(v, 2), 0, "Jacobian of dot(x, x)");
}
template <typename X> void vecs(Source &s) {
    Opt o; o.ang = gen::ANY;
    const X x = leaf<X>(s, o, "x");
    const double b = gen::nonzero(s);
    const Sd k{b};
    s.note([&](auto &os) { os << "k=" << b; });
    const Val v = val(x);
    const int n = ref::dof(v);
    const F B = b, r = nrmv(v);
    s.nontrivial();
    auto col = [&](F f) { Mat m(n, 1); for (int i = 0; i < n; ++i) m(i, 0) = f * ref::component(v, i); return m; };
    close(jac1(x * k, x, "x * k"), ncol(eye(n), B), 0, "Jacobian of x * k w.r.t. x");
    close(jac1(x * k, k, "x * k"), col(1), 0, "Jacobian of x * k w.r.t. k");
    close(jac1(k * x, x, "k * x"), ncol(eye(n), B), 0, "Jacobian of k * x w.r.t. x");
    close(jac1(k * x, k, "k * x"), col(1), 0, "Jacobian of k * x w.r.t. k");
    close(jac1(x / k, x, "x / k"), ncol(eye(n), 1 / B), 1e-15L / std::fabs(B), "Jacobian of x / k w.r.t. x");
    close(jac1(x / k, k, "x / k"), col(-1 / B / B), 1e-14L * r / B / B, "Jacobian of x / k w.r.t. k");
    // plain numbers
    close(jac1(x * b, x, "x * b"), ncol(eye(n), B), 0, "Jacobian of x * b w.r.t. x");
    close(jac1(b * x, x, "b * x"), ncol(eye(n), B), 0, "Jacobian of b * x w.r.t. x");
    close(jac1(x / b, x, "x / b"), ncol(eye(n), 1 / B), 1e-15L / std::fabs(B), "Jacobian of x / b w.r.t. x");
    close(jac1(x * 3.0, x, "x * 3"), ncol(eye(n), 3), 0, "Jacobian of x * 3");
}
