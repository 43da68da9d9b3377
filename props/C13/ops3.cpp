#include "dyn.hpp"
using namespace dy;
OP("-P") { auto &a = st.var<P>(); st.put<P>("-P", -a.p, st.un(rp::neg, a.node)); }
OP("S*P") { auto &k = st.var<S>(); auto &a = st.var<P>(); st.put<P>("S*P", k.p * a.p, st.bin(rp::mul, k.node, a.node)); }
OP("P*k") { auto l = st.leaf<S>(); auto &a = st.var<P>(); st.put<P>("P*k", a.p * l.x, st.bin(rp::mul, a.node, l.node)); }
OP("P/k") { auto l = st.leaf<S>(); auto &a = st.var<P>(); st.put<P>("P/k", a.p / l.x, st.bin(rp::divi, a.node, l.node)); }
OP("2.0*P") { auto &a = st.var<P>(); const int c = st.constant(ref::S(2.0), "2.0"); st.put<P>("2.0*P", 2.0 * a.p, st.bin(rp::mul, c, a.node)); }
OP("d*P") { auto &a = st.var<P>(); st.put<P>("d*P", *st.number * a.p, st.bin(rp::mul, st.numnode, a.node)); }
OP("R*(P+p)-P") {
    auto l = st.leaf<P>(); auto &r = st.var<R>(); auto &a = st.var<P>(); auto pa = a.p; const int an = a.node; auto &b = st.var<P>();
    const int q = st.sub(st.bin(rp::add, an, l.node)), m = st.sub(st.bin(rp::mul, r.node, q));
    auto e = (r.p * (pa + l.x)) - b.p;
    // the static expression itself
    Node n = st.bin(rp::sub, m, b.node);
    const int id = st.add(n);
    Val w;
    try { w = st.ev(id); } catch (pbt::Discard &) { return; }
    gen::check(e.eval(), w, rp::valTol(w), "static expression of proxies");
    auto leaf = st.leaf<P>();
    jacobian(st, e, id, leaf.x, leaf.node, "leaf (static expression of proxies)");
    jacobian(st, e, id, r.p, r.node, "proxy (static expression of proxies)");
    if (st.s.below(3) == 0) reverse(st, e, id);
    ++st.queries;
    st.put<P>("R*(P+p)-P", std::move(e), n);
}
OP("T.translation()") { auto &a = st.var<T>(); st.put<P>("T.translation()", a.p.translation(), st.un(rp::trans, a.node)); }
OP("T.rotation()") { auto &a = st.var<T>(); st.put<R>("T.rotation()", a.p.rotation(), st.un(rp::rot, a.node)); }
#ifndef DYN_FRAMED
OP("P.normalized()") { auto &a = st.var<P>(); st.put<P>("P.normalized()", a.p.normalized(), st.un(rp::nrmd, a.node)); }
#endif
OP("O-O") { auto &a = st.var<O>(); auto pa = a.p; const int an = a.node; auto &b = st.var<O>(); st.put<P>("O-O", pa - b.p, st.bin(rp::sub, an, b.node)); }
OP("O-o") { auto &a = st.var<O>(); auto l = st.leaf<O>(); st.put<P>("O-o", a.p - l.x, st.bin(rp::sub, a.node, l.node)); }
DYN_ASK(U)
