#include "vec.hpp"
template <typename X> void expj(Source &s) {
    Opt o; o.tmax = 100; o.ang = gen::ANY;
    op1<X>(s, o, "exp(x)", LAM1(exp(x)), [](const Val &x) { return ref::exp(x); }, [](const Val &v) { return expTol(v) * scl({v}); });
}
REG("exp so(3)", expj<RelativeRotationd>(s))
REG("exp se(3)", expj<Twistd>(s))
REG("points",
    const Pointd x = leaf<Pointd>(s, {}, "x"); const Pointd y = leaf<Pointd>(s, {}, "y"); const Translationd t = leaf<Translationd>(s, {}, "t"); s.nontrivial();
    const Mat I = eye(3); const Mat N = ncol(eye(3), -1);
    close(jac1(x + t, x, "x + t"), I, 0, "Jacobian of x + t w.r.t. x"); close(jac1(x + t, t, "x + t"), I, 0, "Jacobian of x + t w.r.t. t");
    close(jac1(t + x, x, "t + x"), I, 0, "Jacobian of t + x w.r.t. x"); close(jac1(t + x, t, "t + x"), I, 0, "Jacobian of t + x w.r.t. t");
    close(jac1(x - t, x, "x - t"), I, 0, "Jacobian of x - t w.r.t. x"); close(jac1(x - t, t, "x - t"), N, 0, "Jacobian of x - t w.r.t. t");
    close(jac1(x - y, x, "x - y"), I, 0, "Jacobian of x - y w.r.t. x"); close(jac1(x - y, y, "x - y"), N, 0, "Jacobian of x - y w.r.t. y"))
REG("scalars",
    const double a = gen::nonzero(s); const double b = gen::nonzero(s); const double c = s.uniform(-0.9999, 0.9999); s.nontrivial();
    s.note([&](auto &os) { os << a << "," << b << "," << c; });
    const Sd x{a}; const Sd y{b}; const Sd z{c};
    auto one = [](F k) { Mat m(1, 1); m(0, 0) = k; return m; };
    const F A = a; const F B = b; const F C = c;
    close(jac1(x + y, x, "x + y"), one(1), 0, "d(x+y)/dx"); close(jac1(x + y, y, "x + y"), one(1), 0, "d(x+y)/dy");
    close(jac1(x - y, x, "x - y"), one(1), 0, "d(x-y)/dx"); close(jac1(x - y, y, "x - y"), one(-1), 0, "d(x-y)/dy");
    close(jac1(x * y, x, "x * y"), one(B), 0, "d(x*y)/dx"); close(jac1(x * y, y, "x * y"), one(A), 0, "d(x*y)/dy");
    close(jac1(x / y, x, "x / y"), one(1 / B), 1e-14L / std::fabs(B), "d(x/y)/dx"); close(jac1(x / y, y, "x / y"), one(-A / B / B), 1e-14L * std::fabs(A) / B / B, "d(x/y)/dy");
    close(jac1(-x, x, "-x"), one(-1), 0, "d(-x)/dx");
    close(jac1(x * b, x, "x * b"), one(B), 0, "d(x*b)/dx"); close(jac1(b / x, x, "b / x"), one(-B / A / A), 1e-14L * std::fabs(B) / A / A, "d(b/x)/dx");
    close(jac1(b - x, x, "b - x"), one(-1), 0, "d(b-x)/dx"); close(jac1(x - b, x, "x - b"), one(1), 0, "d(x-b)/dx");
    close(jac1(acos(z), z, "acos(z)"), one(-1 / std::sqrt(1 - C * C)), 1e-14L / (1 - C * C) / std::sqrt(1 - C * C), "d acos(z)/dz"))
