#include "dyn.hpp"
using namespace dy;
OP("own X") { st.own<X>(); }
OP("log(T)") { auto &a = st.var<T>(); st.put<X>("log(T)", log(a.p), st.un(rp::log, a.node)); }
OP("log(U)") { auto &a = st.var<U>(); st.put<X>("log(U)", log(a.p), st.un(rp::log, a.node)); }
OP("T-t") { auto &a = st.var<T>(); auto l = st.leaf<T>(); st.put<X>("T-t", a.p - l.x, st.bin(rp::sub, a.node, l.node)); }
OP("X+X") { auto &a = st.var<X>(); auto pa = a.p; const int an = a.node; auto &b = st.var<X>(); st.put<X>("X+X", pa + b.p, st.bin(rp::add, an, b.node)); }
OP("X-x") { auto &a = st.var<X>(); auto l = st.leaf<X>(); st.put<X>("X-x", a.p - l.x, st.bin(rp::sub, a.node, l.node)); }
OP("k*X") { auto l = st.leaf<S>(); auto &a = st.var<X>(); st.put<X>("k*X", l.x * a.p, st.bin(rp::mul, l.node, a.node)); }
DYN_ASK(X)
DYN_ASK(O)
OP("own O") { st.own<O>(); }
OP("O+P") { auto &a = st.var<O>(); auto &b = st.var<P>(); st.put<O>("O+P", a.p + b.p, st.bin(rp::add, a.node, b.node)); }
OP("P+O") { auto &a = st.var<O>(); auto &b = st.var<P>(); st.put<O>("P+O", b.p + a.p, st.bin(rp::add, b.node, a.node)); }
OP("O-P") { auto &a = st.var<O>(); auto &b = st.var<P>(); st.put<O>("O-P", a.p - b.p, st.bin(rp::sub, a.node, b.node)); }
OP("o+P") { auto l = st.leaf<O>(); auto &b = st.var<P>(); st.put<O>("o+P", l.x + b.p, st.bin(rp::add, l.node, b.node)); }
