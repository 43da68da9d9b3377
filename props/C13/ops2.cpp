#include "dyn.hpp"
using namespace dy;
OP("own P") { st.own<P>(); }
OP("R*P") { auto &a = st.var<R>(); auto &b = st.var<P>(); st.put<P>("R*P", a.p * b.p, st.bin(rp::mul, a.node, b.node)); }
OP("R*p") { auto &a = st.var<R>(); auto l = st.leaf<P>(); st.put<P>("R*p", a.p * l.x, st.bin(rp::mul, a.node, l.node)); }
OP("M*P") { auto &a = st.var<M>(); auto &b = st.var<P>(); st.put<P>("M*P", a.p * b.p, st.bin(rp::mul, a.node, b.node)); }
OP("T*P") { auto &a = st.var<T>(); auto &b = st.var<P>(); st.put<P>("T*P", a.p * b.p, st.bin(rp::mul, a.node, b.node)); }
OP("U*p") { auto &a = st.var<U>(); auto l = st.leaf<P>(); st.put<P>("U*p", a.p * l.x, st.bin(rp::mul, a.node, l.node)); }
OP("t*P") { auto l = st.leaf<T>(); auto &b = st.var<P>(); st.put<P>("t*P", l.x * b.p, st.bin(rp::mul, l.node, b.node)); }
OP("P+P") { auto &a = st.var<P>(); auto pa = a.p; const int an = a.node; auto &b = st.var<P>(); st.put<P>("P+P", pa + b.p, st.bin(rp::add, an, b.node)); }
OP("P-p") { auto &a = st.var<P>(); auto l = st.leaf<P>(); st.put<P>("P-p", a.p - l.x, st.bin(rp::sub, a.node, l.node)); }
OP("ref P+P") { RVar<P> *a; if (!st.ref(a)) return; auto pa = a->p; const int an = a->node; auto &b = st.var<P>(); st.put<P>("refP+P", pa + b.p, st.bin(rp::add, an, b.node)); }
OP("R*ref P") { RVar<P> *a; if (!st.ref(a)) return; auto pa = a->p; const int an = a->node; auto &b = st.var<R>(); st.put<P>("R*refP", b.p * pa, st.bin(rp::mul, b.node, an)); }
OP("ref R*p") { RVar<R> *a; if (!st.ref(a)) return; auto l = st.leaf<P>(); st.put<P>("refR*p", a->p * l.x, st.bin(rp::mul, a->node, l.node)); }
DYN_ASK(P)
