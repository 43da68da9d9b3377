import os, random, re
import progen
CONFIG = {
    "rule": "Factors: random measurement functions (expressions of 1 to 5 operations over 1 to 5 variables of all leaf types, or compounds of 2 or 3 of them) with full noise (random covariances of condition up to 1e6, "
            "equal eigenvalues, diagonal) or diagonal noise (deviations 1e-3 to 1e2 as vector or numbers). Residual against L (f(x) - z) and the Mahalanobis distance, Jacobians against reference derivatives, "
            "also when one object is given for several variables; noise models of every leaf type against their covariance. Non-trivial: inside the regular domain (others are discarded).",
    "seconds": 7, "cases": 400000,
    "assumptions": ["the returned Jacobians are those of the measurement function, as the repository's own tests require; whitening them is the caller's business"],
}
PER = {"quick": (8, 2), "thorough": (32, 5)}
TYPES = {"S": "wave::Scalar<double>", "P": "wave::Translationd", "W": "wave::RelativeRotationd", "X": "wave::Twistd"}
HEAD = '#include "factor.hpp"'


def generate(seed, tier, outdir):
    rng = random.Random("C14-%d" % seed)
    files, per = PER[tier]
    g = progen.Gen(rng, share=0.4, local=0, plain=0.15)
    texts = [[HEAD] for _ in range(files)]
    ops, count = {}, 0
    for i in range(files * per):
        while True:
            p = progen.Prog()
            size = [1, 2, 1, 3][i % 4]
            ks = [rng.choice("SPWX") for _ in range(size)]
            if size == 1:
                ks = ["SPWX"[(i // 4) % 4]]
            es = [g.expr(p, k, rng.choice([1, 2, 3, 4, 5]) if size == 1 else rng.choice([0, 1, 2, 3]), False) for k in ks]
            if any(e is None or e[2] == "num" for e in es) or not 1 <= len(p.leaves) <= 5 or (size == 1 and es[0][2]):
                continue
            break
        n = len(p.leaves)
        args = ", ".join(e[0] for e in es)
        refs = ", ".join("[](const rp::VL &l) { (void) l; return %s; }" % e[1] for e in es)
        if size == 1:
            expr, meas = args, TYPES[ks[0]]
        else:
            expr, meas = "wave::internal::makeCompound<cmp::Meas>(%s)" % args, "cmp::Meas<%s>" % ", ".join(TYPES[k] for k in ks)
        for v in p.nums:      # plain numbers become literals: a functor has no state
            c = "1.5" if v[-1] in "02468" else "-0.5"
            expr, refs = re.sub(r"\b%s\b" % v, c, expr), re.sub(r"\b%s\b" % v, c, refs)
        p.nums = []
        t = texts[i % files]
        t.append("struct Fn%d { template <%s> auto operator()(%s) const { return %s; } };" % (
            i, ", ".join("typename A%d" % k for k in range(n)), ", ".join("const A%d &x%d" % (k, k) for k in range(n)), expr))
        names = [l[0] for l in p.leaves]
        # pairs of variables of one type
        dup = ""
        for a in range(n):
            for b in range(a + 1, n):
                if p.leaves[a][2] == p.leaves[b][2] and "Unit" not in p.leaves[a][3] + p.leaves[b][3]:
                    w = list(range(n)); w[b] = a
                    dup += " f(std::vector<size_t>{%s}, %s);" % (", ".join(map(str, w)), ", ".join(names[q] for q in w))
        noise = ["wave::FullNoise", "wave::DiagonalNoise"][(i // files) % 2 if per > 1 else i % 2]
        t.append("FACET(\"factor %d: %s\", 1) {" % (i, args))
        t.append(progen.decl(p))
        t.append("    fac::factorWith<Fn%d, %s, %s>(s, {%s}, [&](auto &&f) {%s (void) f; }, %s);" % (i, meas, noise, refs, dup, ", ".join(names)))
        t.append("}")
        count += 1
        for o in p.ops:
            ops[o] = ops.get(o, 0) + 1
    out = []
    for i, t in enumerate(texts):
        f = os.path.join(outdir, "fac%02d.cpp" % i)
        open(f, "w").write("\n".join(t) + "\n")
        out.append(f)
    f = os.path.join(outdir, "noise.cpp")
    leaves = list(TYPES.values()) + ["wave::Pointd", "wave::RotationMd", "wave::RotationQd", "wave::RotationAd", "wave::RigidTransformMd", "wave::RigidTransformQd",
                                     "wave::RotationMFd<struct NA, struct NB>", "wave::RigidTransformQFd<struct NA, struct NB>", "cmp::Meas<wave::Scalar<double>, wave::Translationd>"]
    open(f, "w").write(HEAD + "\n" + "\n".join('FACET("noise of %s", 0.3) { fac::noises<%s>(s); }' % (l.replace('"', ''), l) for l in leaves) + "\n")
    return out + [f], {"factors": count, "operations": ops}
