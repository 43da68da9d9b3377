#include "dyn.hpp"
using namespace dy;
OP("own R") { st.own<R>(); }
OP("R*R") { auto &a = st.var<R>(); const int an = a.node; auto pa = a.p; auto &b = st.var<R>(); st.put<R>("R*R", pa * b.p, st.bin(rp::mul, an, b.node)); }
OP("R*r") { auto l = st.leaf<R>(); auto &a = st.var<R>(); st.put<R>("R*r", a.p * l.x, st.bin(rp::mul, a.node, l.node)); }
OP("r*R") { auto l = st.leaf<R>(); auto &a = st.var<R>(); st.put<R>("r*R", l.x * a.p, st.bin(rp::mul, l.node, a.node)); }
OP("inverse(R)") { auto &a = st.var<R>(); st.put<R>("inverse(R)", inverse(a.p), st.un(rp::inv, a.node)); }
OP("inverse(r)") { auto l = st.leaf<R>(); st.put<R>("inverse(r)", inverse(l.x), st.un(rp::inv, l.node)); }
OP("exp(W)") { auto &a = st.var<W>(); st.put<R>("exp(W)", exp(a.p), st.un(rp::exp, a.node)); }
OP("R+W") { auto &b = st.var<W>(); auto &a = st.var<R>(); st.put<R>("R+W", a.p + b.p, st.bin(rp::add, a.node, b.node)); }
OP("R+w") { auto l = st.leaf<W>(); auto &a = st.var<R>(); st.put<R>("R+w", a.p + l.x, st.bin(rp::add, a.node, l.node)); }
OP("ref R*ref R") { RVar<R> *a, *b; if (st.ref(a) && st.ref(b)) st.put<R>("refR*refR", a->p * b->p, st.bin(rp::mul, a->node, b->node)); }
OP("ref R*R") { RVar<R> *a; if (!st.ref(a)) return; auto pa = a->p; const int an = a->node; auto &b = st.var<R>(); st.put<R>("refR*R", pa * b.p, st.bin(rp::mul, an, b.node)); }
OP("inverse(R*r)*R") {
    auto l = st.leaf<R>(); auto &a = st.var<R>(); auto pa = a.p; const int an = a.node; auto &b = st.var<R>();
    const int m = st.sub(st.bin(rp::mul, an, l.node)), i = st.sub(st.un(rp::inv, m));
    st.put<R>("inverse(R*r)*R", inverse(pa * l.x) * b.p, st.bin(rp::mul, i, b.node));
}
OP("moved R*r") {   // R = std::move(R) * r
    auto l = st.leaf<R>(); auto &a = st.var<R>();
    Node n = st.bin(rp::mul, a.node, l.node); n.text = "moved R*r"; n.size = 1 + st.nodes[a.node].size;
    const int id = st.add(n);
    try { st.ev(id); } catch (pbt::Discard &) { return; }
    a.p = std::move(a.p) * l.x; a.node = id; ++st.rebinds;
}
DYN_ASK(R)
