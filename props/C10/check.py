import os, random, re
import progen
CONFIG = {
    "rule": "Every operation accepting a Zero or Identity placeholder, in each operand position, for each wrapped leaf type, and random expression programs with one or two leaves replaced by placeholders (also framed). "
            "Each case evaluates the expression with the placeholder and with the concrete zero or identity element and compares values (1e-11 relative) and the Jacobians w.r.t. all other leaves "
            "(1e-10 relative, three ways of asking), and both with the long-double reference. Non-trivial: not discarded for leaving the regular domain.",
    "seconds": 7, "cases": 300000,
}
R = ["wave::RotationMd", "wave::RotationQd", "wave::RotationAd"]
T = ["wave::RigidTransformMd", "wave::RigidTransformQd"]
LEAF = {"p": "wave::Translationd", "q": "wave::Translationd", "w": "wave::RelativeRotationd", "x": "wave::Twistd", "o": "wave::Pointd", "k": "wave::Scalar<double>"}


def cases(tier):
    """(placeholder type, type of r or None, C++ expression in z and r p q w x o k)"""
    out = []
    n = 0

    def others(reps, es, Z):
        nonlocal n
        for e in es:
            if tier == "thorough" or e in ("z*r", "r*z"):
                out.extend((Z, y, e) for y in reps)
            else:
                out.append((Z, reps[n % len(reps)], e))
                n += 1
    for t in R:
        Z = "wave::Identity<%s>" % t
        out += [(Z, None, e) for e in ["inverse(z)", "log(z)", "z*p", "z+w", "z*z", "z-z", "inverse(z)*p", "exp(w)*z", "z*exp(w)", "(z*exp(w))*p", "z*(p-q)"]]
        others(R, ["z*r", "r*z", "r-z", "z-r", "(z*r)*p", "inverse(z*r)", "log(r*z)", "(z+w)*r", "inverse(r*z)*p", "(r*inverse(z))*p"], Z)
    for t in T:
        Z = "wave::Identity<%s>" % t
        out += [(Z, None, e) for e in ["inverse(z)", "log(z)", "z*p", "z+x", "z*z", "z-z", "z.rotation()", "z.translation()", "z.rotation()*p", "inverse(z)*p", "exp(x)*z",
                                       "z.translation()+p", "p-z.translation()", "(z*exp(x))*p", "z*(p-q)", "(p+z.translation())*k",
                                       "(z*z).rotation()", "(z*z).translation()", "inverse(z).rotation()*p", "p-inverse(z).translation()", "log(inverse(z).rotation())-w",
                                       "exp(log(z)).translation()+p", "(z-z)+x", "(z*z)*p"]]
        others(T, ["z*r", "r*z", "r-z", "z-r", "(z*r)*p", "inverse(z*r)", "log(r*z)", "(z+x)*r", "(r*z).translation()", "(r*z).rotation()", "(r*inverse(z))*p", "(z*r).rotation()*p"], Z)
        for y in R:
            out += [(Z, y, "r*z.rotation()"), (Z, y, "z.rotation()*r"), (Z, y, "r-z.rotation()")]
    for v in "pwx":
        Z = "wave::Zero<%s>" % LEAF[v]
        for e in ["z+z", "z+V", "V+z", "V-z", "z-V", "-z", "z-z", "k*z", "z*k", "z/k", "2.0*z", "dot(z,V)", "dot(V,z)", "z.squaredNorm()", "z.norm()", "V+(k*z)", "V-(-z)", "(V-z)*k", "(z-V)/k", "-(z+V)"]:
            out.append((Z, None, e.replace("V", v)))
        if v != "p":
            out.append((Z, None, "exp(z)"))
            if v == "x":
                out += [(Z, None, e) for e in ["exp(z).rotation()", "exp(z).translation()", "p-exp(z).translation()", "exp(z).rotation()*p", "inverse(exp(z)).translation()+p", "exp(-z).rotation()*p",
                                               "(exp(z)*exp(x)).rotation()", "exp(k*z)*exp(x)", "log(exp(z))+x"]]
            else:
                out += [(Z, None, e) for e in ["exp(-z)*p", "exp(k*z)*exp(w)", "log(exp(z))+w", "exp(z+z)*p", "exp(z)*exp(z)"]]
            others(R if v == "w" else T, ["r+z", "exp(z)*r", "r*exp(z)", "inverse(exp(z))*r", "(r+z)*p", "r-exp(z)", "(exp(z)*r)*p"], Z)
        else:
            others(R + T, ["r*z", "r*(z+p)", "(r*z)+p", "r*(r*z)", "inverse(r)*z"], Z)
            out += [(Z, y, "r*z") for y in R + T]
            out += [(Z, None, e) for e in ["o+z", "z+o", "o-z", "(o+z)-o", "(o-z)+p"]]
        if v == "x":
            out += [(Z, None, e) for e in ["z.rotation()", "z.translation()", "z.rotation()+w", "exp(z.rotation())*p", "z.translation()+p"]]
    return list(dict.fromkeys(out))


def framed(t):
    """the same type with frame A throughout"""
    m = re.match(r"(wave::(?:Zero|Identity))<(.*)>$", t)
    if m:
        return "%s<%s>" % (m.group(1), framed(m.group(2)))
    k = {"wave::Translationd": 3, "wave::RelativeRotationd": 3, "wave::Twistd": 3}.get(t, 2)
    return t if "Scalar" in t else "wave::Framed<%s%s>" % (t, ", A" * k)


REF = {"inverse": "rp::inv", "log": "rp::log", "exp": "rp::exp", "dot": "rp::dot"}


class Sym:
    """evaluates the C++ expression text symbolically into a reference program"""

    def __init__(self, t): self.t = t
    def __mul__(a, b): return Sym("rp::mul(%s, %s)" % (a.t, w(b)))
    def __rmul__(a, b): return Sym("rp::mul(%s, %s)" % (w(b), a.t))
    def __add__(a, b): return Sym("rp::add(%s, %s)" % (a.t, b.t))
    def __sub__(a, b): return Sym("rp::sub(%s, %s)" % (a.t, b.t))
    def __truediv__(a, b): return Sym("rp::divi(%s, %s)" % (a.t, w(b)))
    def __neg__(a): return Sym("rp::neg(%s)" % a.t)
    def rotation(a): return Sym("rp::rot(%s)" % a.t)
    def translation(a): return Sym("rp::trans(%s)" % a.t)
    def squaredNorm(a): return Sym("rp::sqn(%s)" % a.t)
    def norm(a): return Sym("ref::nrm(%s)" % a.t)


def w(b): return b.t if isinstance(b, Sym) else "rp::S(%r)" % b


ENV = {"inverse": lambda a: Sym("rp::inv(%s)" % a.t), "log": lambda a: Sym("rp::log(%s)" % a.t), "exp": lambda a: Sym("rp::exp(%s)" % a.t),
       "dot": lambda a, b: Sym("rp::dot(%s, %s)" % (a.t, b.t))}


def facet(i, Z, y, e, fr):
    used = [u for u in "rpqwxok" if re.search(r"\b%s\b" % u, e)]
    ty = {u: (y if u == "r" else LEAF[u]) for u in used}
    zt = framed(Z) if fr else Z
    t = ["FACET(\"%s%s%s: %s\", 1) {" % ("framed " if fr else "", Z, ", r is " + y if y else "", e)]
    t.append("    const rp::Regime regime{s};")
    t.append("    const %s z{}; ph::alone(z);" % zt)
    for u in used:
        t.append("    const auto %s0 = rp::tame<%s>(s, \"%s\");" % (u, ty[u], u))
        t.append("    const %s %s{%s0.value()};" % (framed(ty[u]), u, u) if fr else "    const auto &%s = %s0;" % (u, u))
    env = dict(ENV, **{u: Sym("l[%d]" % j) for j, u in enumerate(used)})
    env["z"] = Sym("l[%d]" % len(used))
    t.append("    ph::compare(s, [](const rp::VL &l) { return %s; }, z, [&](const auto &z) { return %s; }%s);" % (eval(e, env).t, e, "".join(", " + u for u in used)))
    t.append("}")
    return "\n".join(t)


PLACE = {"R": "Identity", "T": "Identity", "P": "Zero", "W": "Zero", "X": "Zero"}


def nested(g, rng, n):
    """random programs in which one leaf becomes a placeholder"""
    out, k = [], 0
    kinds = "PWXRTPOS"
    while len(out) < n:
        p = g.program(kinds[k % len(kinds)], rng.choice([3, 3, 4, 5, 6]), False)
        k += 1
        cand = [i for i, l in enumerate(p.leaves) if l[1] in PLACE]
        if not cand or len(p.leaves) < 2:
            continue
        i = min(cand, key=lambda i: (g.used[("place", p.leaves[i][2])], rng.random()))
        # the norm of an expression with a zero in it is often singular, and so is its normalised vector
        g.used[("place", p.leaves[i][2])] += 1
        l = p.leaves[i]
        t = ["FACET(\"nested, %s as placeholder: %s\", 1) {" % (l[0], " | ".join([p.cpp] + ["%s = %s" % x for x in p.locals]))]
        t.append("    const rp::Regime regime{s};")
        keep = [x for x in p.leaves if x[0] != l[0]]
        for x in keep:
            t.append("    const auto %s = %s;" % (x[0], x[3]))
        for m in p.nums:
            t.append("    const double %s = rp::tameNum(s, \"%s\");" % (m, m))
        t.append("    const wave::%s<%s> z{};" % (PLACE[l[1]], l[2]))
        ref = p.ref
        order = {j: (len(keep) if x[0] == l[0] else keep.index(x)) for j, x in enumerate(p.leaves)}
        ref = re.sub(r"l\[(\d+)\]", lambda m: "l[%d]" % order[int(m.group(1))], ref)
        body = "".join("const auto %s = %s; " % x for x in p.locals)
        t.append("    ph::compare(s, [=](const rp::VL &l) { (void) l; return %s; }, z, [&](const auto &%s) { %sreturn %s; }%s);"
                 % (ref, l[0], body, p.cpp, "".join(", " + x[0] for x in keep)))
        t.append("}")
        out.append("\n".join(t))
    return out


def generate(seed, tier, outdir):
    rng = random.Random("C10-%d" % seed)
    cs = cases(tier)
    # framed: relations whose frames work out when every frame is A
    # (the parts of a framed placeholder carry no frames, so they mix with unframed operands only)
    fr = [c for c in cs if not re.search(r"z\.(rot|trans)", c[2]) and rng.random() < (1 if tier == "thorough" else 0.12)]
    facets = [facet(i, *c, False) for i, c in enumerate(cs)] + [facet(i, *c, True) for i, c in enumerate(fr)]
    g = progen.Gen(rng, local=0)   # (a named subexpression would be local to the lambda)
    nest = nested(g, rng, 16 if tier == "quick" else 120)
    rng.shuffle(facets)
    files = 16 if tier == "quick" else 80
    out = []
    for i in range(files):
        f = os.path.join(outdir, "ph%02d.cpp" % i)
        open(f, "w").write("#include \"common.hpp\"\n" + "\n".join(facets[i::files] + nest[i::files]) + "\n")
        out.append(f)
    return out, {"placeholder_expressions": len(cs), "framed": len(fr), "nested_programs": len(nest)}
