// Lifetime histories of stored expressions. Everything an expression might refer to lives on the heap, and what it
// must not refer to (operands passed as temporaries) is destroyed right after the expression was built.
#pragma once
#include "prog.hpp"
#include <memory>
struct A;
namespace life {
using ref::F; using ref::Val; using ref::Mat;
template <typename T> using Own = std::unique_ptr<T>;
template <typename T> auto heap(T &&x) { return Own<std::decay_t<T>>(new std::decay_t<T>(std::forward<T>(x))); }
/** a temporary: a prvalue */
template <typename T> T tmp(const T &x) { return x; }
/** an xvalue, of a copy that is destroyed with the original */
template <typename T> T &&take(T &x) { return std::move(x); }
template <typename T> const T &as_const(const T &x) { return x; }
/** overwrites the stack that dead temporaries have used */
__attribute__((noinline)) inline void clobber(int k) {
    volatile double junk[512];
    for (int i = 0; i < 512; ++i) junk[i] = k * 1e3 + i;
}
template <typename T> std::string bytes(const T &x) { return std::string(reinterpret_cast<const char *>(&x), sizeof x); }

/** a leaf the expression refers to: how to change it and how to ask for its Jacobian */
template <typename T> struct Use { T &x; int index; };
template <typename T> Use<T> use(T &x, int index) { return {x, index}; }

template <typename T> void redraw(pbt::Source &s, T &x) {
    const T y = rp::tame<T>(s, "new");
    if (s.coin()) x = y;
    else x.value() = y.value();
}
inline void redraw(pbt::Source &s, double &x) { x = gen::nonzero(s, 3); }

/** f applied to every element of a tuple with its index */
template <typename Tup, typename Fn, size_t... I> void each(Tup &t, Fn &&f, std::index_sequence<I...>) { (void) std::initializer_list<int>{(f(std::get<I>(t)), 0)...}; }
template <typename Tup, typename Fn> void each(Tup &t, Fn &&f) { each(t, f, std::make_index_sequence<std::tuple_size<Tup>::value>{}); }

/**
 * e: the expression; r: its reference in l; l: reference values when e was built; leaves: Use<> of every leaf it refers
 * to; nums: numbers it refers to (with the index in m of the reference's numbers)
 */
template <typename E, typename... Ls>
struct Run {
    pbt::Source &s;
    Own<E> e;
    ref::Fn r;
    rp::VL l;
    std::tuple<Use<Ls>...> leaves;
    std::vector<std::pair<double *, double *>> nums;   // library's number, reference's number
    std::vector<std::function<void()>> kept;
    int evals = 0;

    Val want() { return r(l); }
    void snapshot(std::vector<std::string> &v) {
        each(leaves, [&](auto &u) { v.push_back(bytes(u.x)); });
        for (auto &n : nums) v.push_back(bytes(*n.first));
    }
    template <typename Fn> void pure(Fn &&f, const char *what) {
        std::vector<std::string> a, b;
        snapshot(a);
        f();
        snapshot(b);
        if (a != b) pbt::fail(what, " changed an operand");
    }
    template <typename V> void check(const V &v, const char *what) {
        const Val w = want();
        gen::check(v, w, rp::valTol(w), what);
    }
    void evaluate() {
        clobber(++evals);
        switch (s.below(6)) {
            case 0: pure([&] { check(e->eval(), "eval()"); }, "eval()"); break;
            case 1: {   // the result must not depend on anything that changes later
                const Val w = want();
                auto res = std::make_shared<std::decay_t<decltype(e->eval())>>(e->eval());
                kept.push_back([=] { gen::check(*res, w, rp::valTol(w), "result kept"); });
                break;
            }
            case 2: {
                const Val w = want();
                const auto &res = e->eval();   // a reference to what eval() gives
                clobber(evals + 7);
                gen::check(res, w, rp::valTol(w), "reference bound to the result of eval()");
                break;
            }
            case 3: {
                using P = wave::internal::plain_output_t<E>;
                pure([&] { P p{*e}; check(p, "leaf constructed from the expression"); }, "construction");
                break;
            }
            case 4: {
                const Val w = want();
                auto f = [](const E &x) { return wave::eval(x); };
                const auto v = f(*e);
                clobber(evals + 3);
                gen::check(v, w, rp::valTol(w), "eval(expression)");
                break;
            }
            default: {
                E c{*e};
                check(std::move(c).eval(), "eval() of a temporary copy");
            }
        }
    }
    template <typename X> using Num = std::is_same<X, double>;
    void differentiate() {
        const Ref_ ref{r, l};
        const unsigned how = s.below(4);
        if (how == 3) {
            if constexpr (sizeof...(Ls) > 0) {
                pure([&] { together(ref, std::index_sequence_for<Ls...>{}); }, "evalWithJacobians()");
            }
            return;
        }
        const int which = sizeof...(Ls) ? (int) s.below(sizeof...(Ls)) : -1;
        int k = 0;
        each(leaves, [&](auto &u) {
            if (k++ != which) return;
            const Mat want = ref.J(u.index);
            const F tol = ref.tol(want);
            auto test = [=](const Mat &got, const char *w) { gen::close(got, want, tol, std::string(w) + " w.r.t. leaf " + std::to_string(u.index)); };
            if (how == 0) pure([&] { test(gen::mat(e->jacobian(u.x)), "jacobian()"); }, "jacobian()");
            else if (how == 1) {
                auto J = std::make_shared<std::decay_t<decltype(e->jacobian(u.x))>>(e->jacobian(u.x));
                kept.push_back([=] { test(gen::mat(*J), "Jacobian kept"); });
            } else {
                const auto &J = e->jacobian(u.x);
                clobber(evals + 11);
                test(gen::mat(J), "reference bound to a Jacobian");
            }
        });
    }
    struct Ref_ {
        const ref::Fn &f; const rp::VL &l;
        Mat J(int i) const { return ref::numJac(f, l, i, rp::H); }
        F tol(const Mat &m) const { if (m.maxabs() > 1e5L) throw pbt::Discard{}; return 1e-7L * (1 + m.maxabs()); }
    };
    template <size_t... I> void together(const Ref_ &ref, std::index_sequence<I...>) {
        auto all = e->evalWithJacobians(std::get<I>(leaves).x...);
        const Val w = want();
        clobber(evals + 5);
        gen::check(std::get<0>(all), w, rp::valTol(w), "value from evalWithJacobians");
        (void) std::initializer_list<int>{([&] {
            const Mat m = ref.J(std::get<I>(leaves).index);
            gen::close(gen::mat(std::get<I + 1>(all)), m, ref.tol(m), "Jacobian from evalWithJacobians w.r.t. leaf " + std::to_string(std::get<I>(leaves).index));
        }(), 0)...};
    }
    void mutate() {
        const size_t n = sizeof...(Ls) + nums.size();
        if (!n) return;
        size_t which = s.below(n), k = 0;
        each(leaves, [&](auto &u) {
            if (k++ == which) {
                redraw(s, u.x);
                l[u.index] = gen::val(u.x);
                s.note([&](auto &os) { os << "leaf " << u.index << " := " << l[u.index]; });
            }
        });
        for (auto &p : nums)
            if (k++ == which) {
                redraw(s, *p.first);
                *p.second = *p.first;
                s.note([&](auto &os) { os << "number := " << *p.first; });
            }
    }
    void transport() {
        switch (s.below(4)) {
            case 0: { Own<E> c{new E(*e)}; e = std::move(c); s.note([](auto &os) { os << "copied, original destroyed"; }); break; }
            case 1: { Own<E> c{new E(std::move(*e))}; e = std::move(c); s.note([](auto &os) { os << "moved"; }); break; }
            case 2: {   // by value through a function
                auto f = [](E x) { return x; };
                Own<E> c{new E(f(*e))}; e = std::move(c); s.note([](auto &os) { os << "passed by value"; }); break;
            }
            default:
                if constexpr (std::is_copy_assignable<E>::value) {
                    Own<E> c{new E(*e)};
                    *c = *e; e = std::move(c);
                }
        }
    }
    void history() {
        evaluate();
        differentiate();
        const int n = s.range(2, 7);
        for (int i = 0; i < n; ++i) switch (s.below(6)) {
            case 0: case 1: mutate(); break;
            case 2: transport(); break;
            case 3: differentiate(); break;
            default: evaluate();
        }
        mutate();
        evaluate();
        differentiate();
        for (auto &f : kept) f();
        kept.clear();
        s.nontrivial();
    }
    /** assigns the expression to one of its own leaves */
    template <typename T> void alias(T &x, int index) {
        const Val w = want();
        std::vector<std::string> a, b;
        std::vector<const void *> at;
        each(leaves, [&](auto &u) { if ((const void *) &u.x != (const void *) &x) a.push_back(bytes(u.x)); });
        if (s.coin()) x = *e;
        else { E c{*e}; x = std::move(c); }
        each(leaves, [&](auto &u) { if ((const void *) &u.x != (const void *) &x) b.push_back(bytes(u.x)); });
        gen::check(x, w, rp::valTol(w), "operand assigned from the expression");
        if (a != b) pbt::fail("assigning the expression to one of its operands changed another one");
        l[index] = gen::val(x);
        s.note([&](auto &os) { os << "leaf " << index << " assigned from the expression: " << l[index]; });
        s.label("assigned to an operand");
        // and again, with the new value
        const Val w2 = want();
        gen::check(e->eval(), w2, rp::valTol(w2), "value after the assignment");
    }
};
template <typename E, typename... Ls>
Run<E, Ls...> run(pbt::Source &s, Own<E> e, ref::Fn r, rp::VL l, std::vector<std::pair<double *, double *>> nums, Use<Ls>... us) {
    return {s, std::move(e), std::move(r), std::move(l), std::tuple<Use<Ls>...>{us...}, std::move(nums), {}, 0};
}
}  // namespace life
