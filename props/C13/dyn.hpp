// Model-based histories over dynamic proxies. The model is a graph of nodes; a proxy is a variable bound to a node, an
// expression captures the nodes its proxies are bound to when it is built, and leaves taken by reference are nodes
// whose value is the leaf's current value.
#pragma once
#include "prog.hpp"
#include <memory>
#include <utility>
struct A;
#ifndef DYN_WRAP
#define DYN_WRAP(L, n) L
#endif
namespace dy {
using ref::F; using ref::Val; using ref::Mat;
using R = DYN_WRAP(wave::RotationQd, 2);
using M = DYN_WRAP(wave::RotationMd, 2);
using T = DYN_WRAP(wave::RigidTransformQd, 2);
using U = DYN_WRAP(wave::RigidTransformMd, 2);
using P = DYN_WRAP(wave::Translationd, 3);
using W = DYN_WRAP(wave::RelativeRotationd, 3);
using X = DYN_WRAP(wave::Twistd, 3);
using O = DYN_WRAP(wave::Pointd, 2);
using S = wave::Scalar<double>;
template <typename L> struct Name;
#define DYN_NAME(K) template <> struct Name<K> { static const char *get() { return #K; } };
DYN_NAME(R) DYN_NAME(M) DYN_NAME(T) DYN_NAME(U) DYN_NAME(P) DYN_NAME(W) DYN_NAME(X) DYN_NAME(O) DYN_NAME(S)
template <typename L> constexpr bool has_ref = std::is_same<L, R>::value || std::is_same<L, P>::value || std::is_same<L, T>::value;

using Op1 = Val (*)(const Val &);
using Op2 = Val (*)(const Val &, const Val &);
struct Node {
    std::string text;
    std::vector<int> kids;
    Op1 f1 = nullptr; Op2 f2 = nullptr;
    std::function<Val()> leaf;        // value of a leaf
    const void *addr = nullptr;       // of a leaf, if known
    bool referred = false;            // a leaf taken by reference
    double size = 1;
};
template <typename L> struct Var { wave::Proxy<L> p; int node; };
template <typename L> struct RVar { wave::RefProxy<L> p; int node; };
template <typename L> struct Obj { const wave::DynamicBase<L> *d; std::shared_ptr<void> keep; int node; };
template <typename L> struct LeafRef { L &x; int node; };
template <typename L> struct Store {
    std::vector<Var<L>> vars;
    std::vector<RVar<L>> refs;
    std::vector<Obj<L>> objs;
    std::unique_ptr<L> leaf[2];
    int node[2];
};
struct Skip {};
struct State : Store<R>, Store<M>, Store<T>, Store<U>, Store<P>, Store<W>, Store<X>, Store<O>, Store<S> {
    pbt::Source &s;
    std::vector<Node> nodes;
    double limit;
    int ops = 0, changes = 0, rebinds = 0, queries = 0, shared = 0;
    std::unique_ptr<double> number; int numnode;
    int ov = -1; Val ovVal;

    template <typename L> Store<L> &st() { return *this; }
    template <typename L> void leaves() {
        for (int i = 0; i < 2; ++i) {
            st<L>().leaf[i].reset(new L(rp::tame<L>(s, Name<L>::get())));
            L *x = st<L>().leaf[i].get();
            Node n; n.text = std::string(Name<L>::get()) + std::to_string(i); n.leaf = [x] { return gen::val(*x); }; n.addr = x; n.referred = true;
            st<L>().node[i] = add(n);
        }
    }
    explicit State(pbt::Source &s_) : s(s_) {
        leaves<R>(); leaves<M>(); leaves<T>(); leaves<U>(); leaves<P>(); leaves<W>(); leaves<X>(); leaves<O>(); leaves<S>();
        number.reset(new double(rp::tameNum(s, "d")));
        double *d = number.get();
        Node n; n.text = "d"; n.leaf = [d] { return ref::S(*d); }; n.addr = d; n.referred = true;
        numnode = add(n);
        limit = s.below(4) == 0 ? 150 : 40;
    }
    int add(Node n) { nodes.push_back(std::move(n)); return (int) nodes.size() - 1; }
    // ---- the model ----
    Val ev(int id) const {
        if (id == ov) return ovVal;
        const Node &n = nodes[id];
        if (n.leaf) return n.leaf();
        if (n.f1) return n.f1(ev(n.kids[0]));
        const Val a = ev(n.kids[0]);
        return n.f2(a, ev(n.kids[1]));
    }
    Mat jac(int id, int target) {
        const ref::Fn f = [&](const rp::VL &l) {
            ov = target; ovVal = l[0];
            try { Val v = ev(id); ov = -1; return v; } catch (...) { ov = -1; throw; }
        };
        const Val at = ev(target);
        if (!reaches(id, target)) return Mat(ref::dof(ev(id)), ref::dof(at));
        const Mat a = ref::numJac(f, {at}, 0, rp::H), b = ref::numJac(f, {at}, 0, 3 * rp::H);
        const F tol = jtol(a);
        for (size_t i = 0; i < a.a.size(); ++i) if (!(std::fabs(a.a[i] - b.a[i]) < tol / 10)) throw pbt::Discard{};
        return a;
    }
    F jtol(const Mat &a) const { if (!(a.maxabs() < 1e4L)) throw pbt::Discard{}; return 1e-7L * (1 + a.maxabs()); }
    bool reaches(int id, int target) const {
        if (id == target) return true;
        for (int k : nodes[id].kids) if (reaches(k, target)) return true;
        return false;
    }
    void leavesOf(int id, std::set<int> &out) const {
        if (nodes[id].leaf) out.insert(id);
        for (int k : nodes[id].kids) leavesOf(k, out);
    }
    std::string show(int id) const {
        const Node &n = nodes[id];
        if (n.leaf) return n.text;
        return "#" + std::to_string(id);
    }
    // ---- operands ----
    /** an existing variable; made from a new leaf if there is none */
    template <typename L> Var<L> &var() {
        auto &v = st<L>().vars;
        if (v.empty() || (v.size() < 3 && s.below(6) == 0)) own<L>();
        return v[s.below(v.size())];
    }
    template <typename L> LeafRef<L> leaf() { const int i = (int) s.below(2); return {*st<L>().leaf[i], st<L>().node[i]}; }
    /** a constant leaf that is not an object we know */
    int constant(const Val &v, const char *text) { Node n; n.text = text; n.leaf = [v] { return v; }; return add(n); }
    template <typename L> void own() {
        L x = rp::tame<L>(s, "owned");
        const Val v = gen::val(x);
        Node n; n.leaf = [v] { return v; };
        const int id = add(n);
        wave::Proxy<L> p = s.coin() ? wave::Proxy<L>{std::move(x)} : wave::makeProxy(std::move(x));
        nodes[id].addr = &dynamic_cast<const wave::Dynamic<L &&> &>(p.follow()).rhs();
        nodes[id].text = "#" + std::to_string(id);
        s.note([&](auto &os) { os << Name<L>::get() << " var" << st<L>().vars.size() << " := leaf " << nodes[id].text; });
        st<L>().vars.push_back({p, id});
    }
    template <typename L> bool ref(RVar<L> *&out) {
        auto &v = st<L>().refs;
        if (v.empty()) return false;
        out = &v[s.below(v.size())];
        return true;
    }
    // ---- new nodes ----
    Node un(Op1 f, int a) { Node n; n.f1 = f; n.kids = {a}; return n; }
    Node bin(Op2 f, int a, int b) { Node n; n.f2 = f; n.kids = {a, b}; return n; }
    int sub(const Node &n) { return add(n); }   // an inner operation of a static expression
    template <typename L, typename E> void put(const char *what, E &&e, Node n) {
        n.text = what;
        n.size = 1;
        for (int k : n.kids) n.size += nodes[k].size;
        if (n.size > limit) return;
        const std::vector<int> kids = n.kids;
        const int id = add(std::move(n));
        try { if (!(ref::mag(ev(id)) < 300)) return; } catch (pbt::Discard &) { return; }
        ++ops;
        auto &v = st<L>().vars;
        unsigned how = (unsigned) s.below(8);
        if constexpr (has_ref<L>) {
            if (how >= 6) {   // a Dynamic object of our own, and a reference to it
                auto d = wave::makeDynamic(std::forward<E>(e));
                auto *keep = new decltype(d)(std::move(d));
                std::shared_ptr<void> own{keep, [](void *q) { delete static_cast<decltype(d) *>(q); }};
                st<L>().objs.push_back({keep, own, id});
                auto &r = st<L>().refs;
                if (how == 7 && !r.empty()) {
                    RVar<L> &x = r[s.below(r.size())];
                    x.p = wave::ref(*keep); x.node = id; ++rebinds;
                } else r.push_back({wave::ref(*keep), id});
                s.note([&](auto &os) { os << Name<L>::get() << " ref := dynamic #" << id << "=" << what; list(os, kids); });
                return;
            }
        }
        if (how < 4 && !v.empty()) {
            const size_t i = s.below(v.size());
            s.note([&](auto &os) { os << Name<L>::get() << " var" << i << " := #" << id << "=" << what; list(os, kids); });
            if (how == 0) v[i].p = wave::makeProxy(std::forward<E>(e));
            else v[i].p = std::forward<E>(e);
            v[i].node = id;
            ++rebinds;
        } else {
            s.note([&](auto &os) { os << Name<L>::get() << " var" << v.size() << " := #" << id << "=" << what; list(os, kids); });
            if (how == 4) v.push_back({wave::makeProxy(std::forward<E>(e)), id});
            else v.push_back({wave::Proxy<L>{std::forward<E>(e)}, id});
        }
    }
    template <typename Os> void list(Os &os, const std::vector<int> &kids) { os << "("; for (int k : kids) os << show(k) << " "; os << ")"; }
    // ---- changes ----
    template <typename L> void mutate() {
        auto l = leaf<L>();
        l.x = rp::tame<L>(s, "new value");
        s.note([&](auto &os) { os << nodes[l.node].text << " := " << gen::val(l.x); });
        ++changes;
    }
    template <typename L> void shuffle() {   // copies, moves and drops of variables
        auto &v = st<L>().vars;
        if (v.empty()) return;
        const size_t i = s.below(v.size()), j = s.below(v.size());
        switch (s.below(5)) {
            case 0: v.push_back(Var<L>{v[i]}); s.note([&](auto &os) { os << Name<L>::get() << " var" << v.size() - 1 << " := var" << i; }); ++shared; break;
            case 1: v[i] = v[j]; ++rebinds; s.note([&](auto &os) { os << Name<L>::get() << " var" << i << " := var" << j; }); break;
            case 2: if (v.size() > 1) { v.erase(v.begin() + i); s.note([&](auto &os) { os << Name<L>::get() << " var" << i << " dropped"; }); } break;
            case 3: { Var<L> t{std::move(v[i])}; v[i] = std::move(t); break; }
            default: std::swap(v[i].p, v[j].p); std::swap(v[i].node, v[j].node);
        }
        if constexpr (has_ref<L>) {
            auto &r = st<L>().refs;
            if (r.size() > 1 && s.coin()) { auto &a = r[s.below(r.size())]; auto &b = r[s.below(r.size())]; a.p = b.p; a.node = b.node; ++rebinds; }
            // a proxy holding the reference
            if (!r.empty() && s.below(4) == 0) { auto &a = r[s.below(r.size())]; 
                // it holds an expression of its own, whose only operand is the referred one
                Node n = un([](const Val &x) { return x; }, a.node); n.text = "ref"; n.size = 1 + nodes[a.node].size;
                const int id = add(n);
                s.note([&](auto &os) { os << Name<L>::get() << " var" << v.size() << " := #" << id << "=ref(" << show(nodes[id].kids[0]) << ")"; });
                v.push_back({wave::Proxy<L>{wave::RefProxy<L>{a.p}}, id});
            }
        }
    }
};

// ---- operations, registered from several files ----
struct Action { const char *name; void (*fn)(State &); };
inline std::vector<Action> &actions() { static std::vector<Action> a; return a; }
struct RegisterAction { RegisterAction(const char *n, void (*f)(State &)) { actions().push_back({n, f}); } };
#define OP(name)                                                                     \
    static void PBT_CAT(op_, __LINE__)(dy::State &);                                 \
    static dy::RegisterAction PBT_CAT(rop_, __LINE__){name, PBT_CAT(op_, __LINE__)}; \
    static void PBT_CAT(op_, __LINE__)(dy::State & st)

// ---- questions ----
template <typename L> void ask(State &st);   // about a random variable of type L

template <typename Pr, typename Tg>
void jacobian(State &st, const Pr &p, int node, const Tg &target, int tnode, const char *what) {
    const Mat want = st.jac(node, tnode);
    const F tol = st.jtol(want);
    const std::string w = std::string(what) + " " + st.show(tnode) + " of " + st.show(node);
    switch (st.s.below(3)) {
        case 0: gen::close(gen::mat(wave::internal::evaluateJacobian(p, target)), want, tol, "forward Jacobian w.r.t. " + w); break;
        case 1: gen::close(gen::mat(wave::internal::evaluateDynamicJacobian(p, target)), want, tol, "dynamic Jacobian w.r.t. " + w); break;
        default: {
            const auto r = p.evalWithJacobians(target);
            const Val v = st.ev(node);
            gen::check(std::get<0>(r), v, rp::valTol(v), "value from evalWithJacobians");
            gen::close(gen::mat(std::get<1>(r)), want, tol, "evalWithJacobians() w.r.t. " + w);
        }
    }
    if (want.maxabs() > 0) st.s.label(std::string("nonzero Jacobian w.r.t. ") + what);
}
template <typename Pr> void reverse(State &st, const Pr &p, int node) {
    const auto r = wave::internal::evaluateWithDynamicReverseJacobians(p);
    const Val v = st.ev(node);
    gen::check(r.first, v, rp::valTol(v), "value from reverse mode");
    std::set<int> ls;
    st.leavesOf(node, ls);
    int checked = 0;
    for (int l : ls) {
        const Node &n = st.nodes[l];
        if (!n.addr) continue;
        if (!r.second.count(n.addr)) pbt::fail("reverse mode: no Jacobian w.r.t. leaf ", st.show(l), " of ", st.show(node));
        if (++checked > 4 && st.s.coin()) continue;
        const Mat want = st.jac(node, l);
        gen::close(gen::mat(r.second.at(n.addr)), want, st.jtol(want), "reverse-mode Jacobian w.r.t. " + st.show(l) + " of " + st.show(node));
    }
    // no leaf that does not occur
    for (size_t i = 0; i < st.nodes.size(); ++i)
        if (st.nodes[i].addr && st.nodes[i].referred && !ls.count((int) i) && r.second.count(st.nodes[i].addr))
            pbt::fail("reverse mode: Jacobian w.r.t. a leaf that does not occur, ", st.show((int) i), " in ", st.show(node));
    std::set<const void *> keys;
    for (auto &kv : wave::internal::getLeavesMap(p)) keys.insert(kv.first);
    if (keys.size() != ls.size()) pbt::fail("leaves found in ", st.show(node), ": ", keys.size(), ", but there are ", ls.size());
    st.s.label("reverse mode");
}
template <typename L, typename Pr> void one(State &st, const Pr &p, int node) {
    st.s.note([&](auto &os) { os << "ask " << Name<L>::get() << " " << st.show(node); });
    const Val want = st.ev(node);
    gen::check(p.eval(), want, rp::valTol(want), "value of " + st.show(node));
    switch (st.s.below(8)) {
        case 0: { L x = rp::tame<L>(st.s, "x"); x = p; gen::check(x, want, rp::valTol(want), "leaf assigned from a proxy"); break; }
        case 1: gen::check(L{p}, want, rp::valTol(want), "leaf constructed from a proxy"); break;
        case 2: reverse(st, p, node); break;
        case 3: case 4: case 5: {   // w.r.t. a leaf
            switch (st.s.below(9)) {
#define DYN_LEAF(i, K) case i: { auto l = st.template leaf<K>(); jacobian(st, p, node, l.x, l.node, "leaf"); break; }
                DYN_LEAF(0, R) DYN_LEAF(1, P) DYN_LEAF(2, W) DYN_LEAF(3, T) DYN_LEAF(4, M) DYN_LEAF(5, X) DYN_LEAF(6, O) DYN_LEAF(7, S)
                default: { auto l = st.template leaf<U>(); jacobian(st, p, node, l.x, l.node, "leaf"); }
            }
            break;
        }
        default: {   // w.r.t. a proxy
            switch (st.s.below(9)) {
#define DYN_VAR(i, K) case i: { if (st.template st<K>().vars.empty()) break; auto &l = st.template var<K>(); jacobian(st, p, node, l.p, l.node, "proxy"); break; }
                DYN_VAR(0, R) DYN_VAR(1, P) DYN_VAR(2, W) DYN_VAR(3, T) DYN_VAR(4, M) DYN_VAR(5, X) DYN_VAR(6, O)
                case 7: { RVar<R> *r; if (st.ref(r)) jacobian(st, p, node, r->p, r->node, "reference proxy"); break; }
                case 8: { RVar<P> *r; if (st.ref(r)) jacobian(st, p, node, r->p, r->node, "reference proxy"); break; }
            }
        }
    }
    ++st.queries;
}
#define DYN_ASK(L)                                                               \
    template <> void dy::ask<dy::L>(dy::State &st) {                             \
        using K = dy::L;                                                         \
        auto &v = st.st<K>().vars;                                               \
        if (dy::has_ref<K> && st.s.coin()) {                                     \
            dy::RVar<K> *r;                                                      \
            if (st.ref(r)) { dy::one<K>(st, r->p, r->node); return; }            \
        }                                                                        \
        if (v.empty()) return;                                                   \
        auto &x = v[v.size() - 1 - st.s.below(v.size())];                        \
        const wave::Proxy<K> p = x.p;                                            \
        dy::one<K>(st, p, x.node);                                               \
    }
#define DYN_DECL(L) template <> void ask<L>(State &);
DYN_DECL(R) DYN_DECL(M) DYN_DECL(T) DYN_DECL(U) DYN_DECL(P) DYN_DECL(W) DYN_DECL(X) DYN_DECL(O) DYN_DECL(S)
}  // namespace dy
