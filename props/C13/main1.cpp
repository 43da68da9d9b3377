#include "dyn.hpp"
using namespace dy;
static void askAny(State &st) {
    switch (st.s.below(9)) {
        case 0: ask<R>(st); break; case 1: ask<P>(st); break; case 2: ask<T>(st); break; case 3: ask<W>(st); break; case 4: ask<M>(st); break;
        case 5: ask<X>(st); break; case 6: ask<O>(st); break; case 7: ask<S>(st); break; default: ask<U>(st);
    }
}
static void mutateAny(State &st) {
    switch (st.s.below(10)) {
        case 0: st.mutate<R>(); break; case 1: st.mutate<P>(); break; case 2: st.mutate<T>(); break; case 3: st.mutate<W>(); break; case 4: st.mutate<M>(); break;
        case 5: st.mutate<X>(); break; case 6: st.mutate<O>(); break; case 7: st.mutate<S>(); break; case 8: st.mutate<U>(); break;
        default: *st.number = gen::nonzero(st.s, 3); ++st.changes; st.s.note([&](auto &os) { os << "d := " << *st.number; });
    }
}
static void shuffleAny(State &st) {
    switch (st.s.below(9)) {
        case 0: st.shuffle<R>(); break; case 1: st.shuffle<P>(); break; case 2: st.shuffle<T>(); break; case 3: st.shuffle<W>(); break; case 4: st.shuffle<M>(); break;
        case 5: st.shuffle<X>(); break; case 6: st.shuffle<O>(); break; case 7: st.shuffle<S>(); break; default: st.shuffle<U>();
    }
}
static void quiet(void (*f)(State &), State &st) { try { f(st); } catch (pbt::Discard &) {} }
static void history(pbt::Source &s, int most) {
    State st(s);
    const int n = s.range(3, most);
    for (int i = 0; i < n; ++i) switch (s.below(12)) {
        case 0: quiet(mutateAny, st); break;
        case 1: shuffleAny(st); break;
        case 2: case 3: case 4: quiet(askAny, st); break;
        default: quiet(actions()[s.below(actions().size())].fn, st);
    }
    quiet(askAny, st);
    quiet(mutateAny, st);
    for (int i = 0; i < 6; ++i) quiet(askAny, st);
    if (st.ops >= 3 && st.queries >= 2 && st.changes + st.rebinds + st.shared > 0) s.nontrivial();
}
#ifdef DYN_FRAMED
#define DYN_TITLE "framed "
#else
#define DYN_TITLE ""
#endif
FACET(DYN_TITLE "history of proxies", 3) { history(s, 40); }
FACET(DYN_TITLE "long history of proxies", 1) { history(s, 150); }
FACET(DYN_TITLE "long chain", 1) {
    State st(s);
    st.limit = 1000;
    const int n = s.range(10, 120);
    wave::Proxy<P> e = P{*st.st<P>().leaf[0]};
    auto addr = &dynamic_cast<const wave::Dynamic<P &&> &>(e.follow()).rhs();
    const Val v0 = gen::val(*st.st<P>().leaf[0]);
    Node c; c.text = "start"; c.leaf = [v0] { return v0; }; c.addr = addr;
    int node = st.add(c);
    std::vector<std::pair<wave::Proxy<P>, int>> mid;
    for (int i = 0; i < n; ++i) {
        Node k;
        switch (s.below(4)) {
            case 0: { auto &v = st.var<R>(); k = st.bin(rp::mul, v.node, node); e = v.p * e; break; }
            case 1: { auto l = st.leaf<R>(); k = st.bin(rp::mul, l.node, node); e = l.x * e; break; }
            case 2: { auto l = st.leaf<P>(); k = st.bin(rp::sub, node, l.node); e = e - l.x; break; }
            default: { auto &v = st.var<T>(); k = st.bin(rp::mul, v.node, node); e = v.p * e; }
        }
        k.text = "step";
        node = st.add(k);
        mid.push_back({e, node});
    }
    const Val want = st.ev(node);
    gen::check(e.eval(), want, rp::valTol(want), "value of the chain");
    auto &m = mid[s.below(mid.size())];
    jacobian(st, e, node, m.first, m.second, "proxy");
    auto l = st.leaf<R>();
    jacobian(st, e, node, l.x, l.node, "leaf");
    reverse(st, e, node);
    s.nontrivial();
}
FACET(DYN_TITLE "doubling graph", 1) {   // every node is shared twice: 2^n paths
    State st(s);
    const int n = s.range(2, 7);
    wave::Proxy<R> e = R{*st.st<R>().leaf[1]};
    const Val v0 = gen::val(*st.st<R>().leaf[1]);
    Node c; c.text = "start"; c.leaf = [v0] { return v0; }; c.addr = &dynamic_cast<const wave::Dynamic<R &&> &>(e.follow()).rhs();
    int node = st.add(c);
    const wave::Proxy<R> first = e; const int firstNode = node;
    for (int i = 0; i < n; ++i) {
        Node k;
        switch (s.below(3)) {
            case 0: k = st.bin(rp::mul, node, node); e = e * e; break;
            case 1: { auto l = st.leaf<R>(); const int q = st.sub(st.bin(rp::mul, node, l.node)); k = st.bin(rp::mul, q, node); e = (e * l.x) * e; break; }
            default: { const int q = st.sub(st.un(rp::inv, node)); auto l = st.leaf<R>(); const int t = st.sub(st.bin(rp::mul, node, l.node)); k = st.bin(rp::mul, t, q); e = (e * l.x) * inverse(e); }
        }
        k.text = "twice";
        node = st.add(k);
    }
    const Val want = st.ev(node);
    gen::check(e.eval(), want, rp::valTol(want), "value of the graph");
    jacobian(st, e, node, first, firstNode, "proxy");
    auto l = st.leaf<R>();
    jacobian(st, e, node, l.x, l.node, "leaf");
    reverse(st, e, node);
    s.nontrivial();
}
