// Evaluating expressions from several threads at once (C22)
#pragma once
#include <atomic>
#include <exception>
#include <thread>
#include "prog.hpp"
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/estimation.hpp"
namespace conc {
using ref::F; using ref::Val; using ref::Mat;
namespace wi = wave::internal;
using Out = std::vector<double>;
inline void add(Out &o, const Val &v) {
    o.push_back((double) v.s);
    for (int i = 0; i < 3; ++i) o.push_back((double) v.v[i]), o.push_back((double) v.u[i]);
    for (auto &row : v.R.a) for (F x : row) o.push_back((double) x);
}
inline void add(Out &o, const Mat &m) { for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) o.push_back((double) m(i, j)); }
inline void add(Out &o, const std::vector<Mat> &ms) { for (auto &m : ms) add(o, m); }
inline bool equal(const Out &a, const Out &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
    return true;
}
/** one of the ways to ask an expression for its value and Jacobians */
template <typename E, typename... Ls> __attribute__((noinline)) Out ask(int way, const E &e, const Ls &... ls) {
    constexpr auto idx = std::make_index_sequence<sizeof...(Ls)>{};
    Out o;
    auto tup = [&](const auto &t) { add(o, gen::val(std::get<0>(t))); add(o, rp::tail(t, idx)); };
    switch (way) {
        case 0: add(o, gen::val(e.eval())); break;
        case 1: tup(e.evalWithJacobians(ls...)); break;
        case 2: (add(o, gen::mat(e.jacobian(ls))), ...); break;
        case 3: tup(wi::evaluateWithDynamicJacobians(e, ls...)); break;
        case 4: {
            const auto r = wi::evaluateWithDynamicReverseJacobians(e);
            add(o, gen::val(r.first));
            (add(o, gen::mat(r.second.at(&ls))), ...);
            break;
        }
        case 5: (add(o, gen::mat(wi::evaluateDynamicJacobian(e, ls))), ...); break;
        case 6: { const auto copy = e; tup(wi::evaluateWithJacobians(copy, ls...)); break; }
        case 7: { const auto p = wave::makeProxy(E{e}); add(o, gen::val(p.eval())); tup(wi::evaluateWithDynamicJacobians(p, ls...)); break; }
        default:
            if constexpr (wi::unique_leaves_t<E>::value) tup(wi::evaluateWithTypedJacobians(e, ls...));
    }
    return o;
}
constexpr int WAYS = 9;
/** runs the jobs at the same time; returns their results */
template <typename Job> std::vector<Out> race(const std::vector<std::vector<int>> &plan, const Job &job) {
    const size_t n = plan.size();
    std::vector<Out> out(n);
    std::vector<std::exception_ptr> bad(n);
    std::atomic<size_t> ready{0};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < n; ++i)
        ts.emplace_back([&, i] {
            ready.fetch_add(1, std::memory_order_relaxed);      // no ordering between the threads beyond their start
            for (int spin = 0; spin < 2000 && ready.load(std::memory_order_relaxed) < n; ++spin) std::this_thread::yield();
            try { for (int w : plan[i]) { const Out o = job(w, i); out[i].insert(out[i].end(), o.begin(), o.end()); } }
            catch (...) { bad[i] = std::current_exception(); }
        });
    for (auto &t : ts) t.join();
    for (auto &b : bad) if (b) std::rethrow_exception(b);
    return out;
}
/** the same job, at the same time in several threads and in sequence, in a random order */
template <typename Job> void both(pbt::Source &s, int ways, const Job &job) {
    std::vector<std::vector<int>> plan(2 + s.below(3));
    for (auto &p : plan) { p.resize(1 + s.below(3)); for (int &w : p) w = (int) s.below(ways); }
    const bool first = s.coin();
    std::vector<Out> got, want(plan.size());
    if (first) got = race(plan, job);
    for (size_t i = 0; i < plan.size(); ++i) for (int w : plan[i]) { const Out o = job(w, i); want[i].insert(want[i].end(), o.begin(), o.end()); }
    if (!first) got = race(plan, job);
    for (size_t i = 0; i < plan.size(); ++i)
        if (!equal(got[i], want[i])) pbt::fail("thread ", i, " of ", plan.size(), " got another result than the same evaluations in sequence");
    s.label(first ? "concurrent first" : "sequential first");
    s.nontrivial();
}
template <typename E, typename... Ls> void evaluate(pbt::Source &s, const E &e, const Ls &... ls) {
    both(s, WAYS, [&](int way, size_t) { return ask(way, e, ls...); });
}
}  // namespace conc
