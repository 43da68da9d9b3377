#include "dyn.hpp"
using namespace dy;
OP("own T") { st.own<T>(); }
OP("T*T") { auto &a = st.var<T>(); auto pa = a.p; const int an = a.node; auto &b = st.var<T>(); st.put<T>("T*T", pa * b.p, st.bin(rp::mul, an, b.node)); }
OP("T*t") { auto &a = st.var<T>(); auto l = st.leaf<T>(); st.put<T>("T*t", a.p * l.x, st.bin(rp::mul, a.node, l.node)); }
OP("inverse(T)") { auto &a = st.var<T>(); st.put<T>("inverse(T)", inverse(a.p), st.un(rp::inv, a.node)); }
OP("T+X") { auto &b = st.var<X>(); auto &a = st.var<T>(); st.put<T>("T+X", a.p + b.p, st.bin(rp::add, a.node, b.node)); }
OP("ref T*T") { RVar<T> *a; if (!st.ref(a)) return; auto pa = a->p; const int an = a->node; auto &b = st.var<T>(); st.put<T>("refT*T", pa * b.p, st.bin(rp::mul, an, b.node)); }
OP("own U") { st.own<U>(); }
OP("exp(X)") { auto &a = st.var<X>(); st.put<U>("exp(X)", exp(a.p), st.un(rp::exp, a.node)); }
OP("exp(x)") { auto l = st.leaf<X>(); st.put<U>("exp(x)", exp(l.x), st.un(rp::exp, l.node)); }
OP("U*U") { auto &a = st.var<U>(); auto pa = a.p; const int an = a.node; auto &b = st.var<U>(); st.put<U>("U*U", pa * b.p, st.bin(rp::mul, an, b.node)); }
DYN_ASK(T)
