import os, random
import progen
CONFIG = {
    "rule": "Programs generated as for C07, asked for the numerical Jacobian w.r.t. every leaf: one at a time, all together, all together in the opposite order. Leaves are plain objects, plain numbers, "
            "objects in other representations (maps over memory, negated quaternions, angles beyond a turn, framed objects), proxies, elements of compounds, single-precision objects. The oracle is the reference derivative "
            "(fourth-order differences in long double); the allowed error is the rounding of a difference of step sqrt(eps), plus ten times the reference's own first-order difference error at that step. "
            "The bytes of all leaves and the expression's value must be unchanged. Non-trivial: the point is regular and its curvature leaves the answer meaningful.",
    "seconds": 8, "cases": 300000,
    "assumptions": ["magnitudes of values and Jacobians up to 1e3"],
}
PER = {"quick": (12, 3), "thorough": (48, 5)}
HOW = {"R": ["RM", "RQ", "RN", "RA", "RB", "RF", "RMm", "RQm"], "T": ["TM", "TQ", "TN", "TMm"], "P": ["VP", "VPm"], "W": ["VW", "VWm"], "O": ["VO", "VOm"], "X": ["XX", "XXm"], "S": ["SS"], "U": ["SS"]}
FRAMED = {"R": ["RMf", "RQf", "RAf"], "T": ["TMf", "TQf"], "P": ["VPf"], "W": ["VWf"], "O": ["VOf"], "X": ["XXf"], "S": ["SS"], "U": ["SS"]}
BASE = {"R": "reps::base<reps::BaseR>(s)", "T": "reps::base<reps::BaseT>(s)", "P": "reps::base<reps::BaseV>(s)", "W": "reps::rotvec(s)", "O": "reps::base<reps::BaseV>(s)",
        "X": "reps::base<reps::BaseX>(s)", "S": "reps::base<reps::BaseS>(s)", "U": "reps::unitScalar(s)"}


def plain(p):
    """leaves, plain numbers being targets too"""
    ref = p.ref
    for i, n in enumerate(p.nums):
        ref = ref.replace("rp::S(%s)" % n, "l[%d]" % (len(p.leaves) + i))
    fn = "[=](const rp::VL &l) { (void) l; return %s; }" % ref
    return [progen.decl(p), "    const auto e = %s;" % p.cpp,
            "    nj::compare(s, e, %s, %s);" % (fn, ", ".join([l[0] for l in p.leaves] + p.nums))]


def held(p, rng, used, framed):
    table = FRAMED if framed else HOW
    o = []
    for n, k, t, m in p.leaves:
        c = min(table[k], key=lambda r: (used.get((r, k), 0), rng.random()))
        used[(c, k)] = used.get((c, k), 0) + 1
        o.append("    const reps::%s h_%s(%s);" % (c, n, BASE[k]))
        o.append("    const auto &%s = h_%s.get();" % (n, n))
        o.append("    s.note([&](auto &os) { os << gen::val(%s); });" % n)
    for n in p.nums:
        o.append("    const double %s = rp::tameNum(s, \"%s\");" % (n, n))
    for t, x in p.locals:
        o.append("    const auto %s = %s;" % (t, x))
    return o + ["    const auto e = %s;" % p.cpp, "    nj::compare(s, e, %s, %s);" % (progen.reffn(p), ", ".join(l[0] for l in p.leaves))]


def single(p):
    o = []
    for n, k, t, m in p.leaves:
        o.append("    const auto d_%s = %s;" % (n, m))
        o.append("    const auto %s = nj::narrow(d_%s);" % (n, n))
    for t, x in p.locals:
        o.append("    const auto %s = %s;" % (t, x))
    return o + ["    const auto e = %s;" % p.cpp, "    nj::compare(s, e, %s, %s);" % (progen.reffn(p), ", ".join(l[0] for l in p.leaves))]


def proxies(p, rng):
    """some leaves behind proxies; the Jacobians w.r.t. the proxies and the other leaves"""
    o, names = [], []
    for i, (n, k, t, m) in enumerate(p.leaves):
        if i == 0 or rng.random() < 0.6:
            o.append("    auto d_%s = %s;" % (n, m))
            o.append("    const wave::Proxy<%s> %s{%s{d_%s}};" % (t, n, t, n))
        else:
            o.append("    const auto %s = %s;" % (n, m))
            o.append("    const auto &d_%s = %s;" % (n, n))
    for t, x in p.locals:
        o.append("    const auto %s = %s;" % (t, x))
    return o + ["    const auto e = %s;" % p.cpp,
                "    nj::compareWith(s, rp::VL{%s}, Eigen::NumTraits<double>::epsilon(), e, %s, %s);" % (", ".join("gen::val(d_%s)" % l[0] for l in p.leaves), progen.reffn(p), ", ".join(l[0] for l in p.leaves))]


def dynamic(p):
    """named subexpressions behind proxies, sharing leaves"""
    o = []
    for n, k, t, m in p.leaves:
        o.append("    const auto %s = %s;" % (n, m))
    for n in p.nums:
        o.append("    const double %s = rp::tameNum(s, \"%s\");" % (n, n))
    for t, x in p.locals:
        o.append("    const auto %s = wave::makeProxy(%s);" % (t, x))
    return o + ["    const auto e = %s;" % p.cpp, "    nj::compare(s, e, %s, %s);" % (progen.reffn(p), ", ".join(l[0] for l in p.leaves))]


def compounds(rng, n):
    """compounds of expressions, and functions of compounds"""
    g = progen.Gen(rng, share=0.5, local=0.1)
    for i in range(n):
        while True:
            p = progen.Prog()
            ks = [rng.choice("SPWX") for _ in range(rng.choice([2, 3, 4]))]
            es = [g.expr(p, k, rng.choice([0, 1, 2, 3]), False) for k in ks]
            if any(e is None or e[2] == "num" for e in es) or not 2 <= len(p.leaves) <= 6:
                continue
            break
        args = ", ".join(e[0] for e in es)
        refs = ", ".join("[=](const rp::VL &l) { (void) l; return %s; }" % e[1] for e in es)
        yield args, [progen.decl(p), "    const auto e = wave::internal::makeCompound<cmp::VecN>(%s);" % args, "    nj::blocks(s, e, {%s}, %s);" % (refs, ", ".join(l[0] for l in p.leaves))]
    for i in range(n):
        ks = [rng.choice("SPWX") for _ in range(rng.choice([2, 3, 4]))]
        ty = "cmp::VecN<%s>" % ", ".join(progen.REPS[k][0] for k in ks)
        yield ty.replace("wave::", ""), ["    nj::ofCompounds<%s>(s);" % ty]


def generate(seed, tier, outdir):
    rng = random.Random("C20-%d" % seed)
    files, per = PER[tier]
    a, _ = progen.make(rng, files * per, "RTPWXOS", plain=0.4)
    b, _ = progen.make(rng, files, "RTPWXOS", local=0)
    c, _ = progen.make(rng, files, "RTPWXOS", local=0)
    c = [p for p in c]
    d, _ = progen.make(rng, files, "RTPWXOS", numbers=False)
    f, _ = progen.make(rng, files, "PWXORTS", numbers=False)
    h, _ = progen.make(rng, files, "TPRXSWO", local=0.7, share=0.5)
    k = list(compounds(rng, files // 2))
    out, used = [], {}
    for i in range(files):
        t = ['#include "num.hpp"']

        def facet(kind, p, body):
            t.append("FACET(\"%s %d %d: %s\", 1) {" % (kind, i, len(t), p.cpp))
            t.extend(body)
            t.append("}")
        for p in a[i::files]:
            facet("plain", p, plain(p))
        for p in b[i::files]:
            facet("held", p, held(p, rng, used, False))
        for p in c[i::files]:
            facet("framed", p, held(p, rng, used, 'normalized' not in p.ops))
        for p in d[i::files]:
            facet("proxies", p, proxies(p, rng))
        for p in f[i::files]:
            facet("float", p, single(p))
        for p in h[i::files]:
            facet("dynamic", p, dynamic(p))
        for name, body in k[i::files]:
            t.append("FACET(\"compound %d %d: %s\", 0.5) {" % (i, len(t), name.replace('"', "'")))
            t.extend(body)
            t.append("}")
        fn = os.path.join(outdir, "prog%02d.cpp" % i)
        open(fn, "w").write("\n".join(t) + "\n")
        out.append(fn)
    return out, {"programs": len(a) + len(b) + len(c) + len(d) + len(f) + len(h) + len(k)}
