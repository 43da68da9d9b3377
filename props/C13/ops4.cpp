#include "dyn.hpp"
using namespace dy;
OP("own W") { st.own<W>(); }
OP("log(R)") { auto &a = st.var<R>(); st.put<W>("log(R)", log(a.p), st.un(rp::log, a.node)); }
OP("log(M)") { auto &a = st.var<M>(); st.put<W>("log(M)", log(a.p), st.un(rp::log, a.node)); }
OP("R-R") { auto &a = st.var<R>(); auto pa = a.p; const int an = a.node; auto &b = st.var<R>(); st.put<W>("R-R", pa - b.p, st.bin(rp::sub, an, b.node)); }
OP("R-r") { auto &a = st.var<R>(); auto l = st.leaf<R>(); st.put<W>("R-r", a.p - l.x, st.bin(rp::sub, a.node, l.node)); }
OP("W+W") { auto &a = st.var<W>(); auto pa = a.p; const int an = a.node; auto &b = st.var<W>(); st.put<W>("W+W", pa + b.p, st.bin(rp::add, an, b.node)); }
OP("W-w") { auto &a = st.var<W>(); auto l = st.leaf<W>(); st.put<W>("W-w", a.p - l.x, st.bin(rp::sub, a.node, l.node)); }
OP("S*W") { auto &k = st.var<S>(); auto &a = st.var<W>(); st.put<W>("S*W", k.p * a.p, st.bin(rp::mul, k.node, a.node)); }
OP("-w") { auto l = st.leaf<W>(); st.put<W>("-w", -l.x, st.un(rp::neg, l.node)); }
DYN_ASK(W)
DYN_ASK(M)
OP("own M") { st.own<M>(); }
OP("M*M") { auto &a = st.var<M>(); auto pa = a.p; const int an = a.node; auto &b = st.var<M>(); st.put<M>("M*M", pa * b.p, st.bin(rp::mul, an, b.node)); }
OP("M*m") { auto &a = st.var<M>(); auto l = st.leaf<M>(); st.put<M>("M*m", a.p * l.x, st.bin(rp::mul, a.node, l.node)); }
