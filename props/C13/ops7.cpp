#include "dyn.hpp"
using namespace dy;
OP("own S") { st.own<S>(); }
OP("dot(P,P)") { auto &a = st.var<P>(); auto pa = a.p; const int an = a.node; auto &b = st.var<P>(); st.put<S>("dot(P,P)", dot(pa, b.p), st.bin(rp::dot, an, b.node)); }
OP("dot(P,p)") { auto &a = st.var<P>(); auto l = st.leaf<P>(); st.put<S>("dot(P,p)", dot(a.p, l.x), st.bin(rp::dot, a.node, l.node)); }
OP("P.norm()") { auto &a = st.var<P>(); st.put<S>("P.norm()", a.p.norm(), st.un(rp::nrm, a.node)); }
OP("W.squaredNorm()") { auto &a = st.var<W>(); st.put<S>("W.squaredNorm()", a.p.squaredNorm(), st.un(rp::sqn, a.node)); }
OP("S*S") { auto &a = st.var<S>(); auto pa = a.p; const int an = a.node; auto &b = st.var<S>(); st.put<S>("S*S", pa * b.p, st.bin(rp::mul, an, b.node)); }
OP("S-k") { auto &a = st.var<S>(); auto l = st.leaf<S>(); st.put<S>("S-k", a.p - l.x, st.bin(rp::sub, a.node, l.node)); }
OP("S/k") { auto &a = st.var<S>(); auto l = st.leaf<S>(); st.put<S>("S/k", a.p / l.x, st.bin(rp::divi, a.node, l.node)); }
OP("S+S") { auto &a = st.var<S>(); auto pa = a.p; const int an = a.node; auto &b = st.var<S>(); st.put<S>("S+S", pa + b.p, st.bin(rp::add, an, b.node)); }
OP("-S") { auto &a = st.var<S>(); st.put<S>("-S", -a.p, st.un(rp::neg, a.node)); }
DYN_ASK(S)
