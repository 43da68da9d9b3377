import os, random
import progen
CONFIG = {
    "rule": "Programs: random well-typed expressions of 1 to 8 operations over all operations of the library, leaves in all representations, repeated leaves, named subexpressions, plain numbers; "
            "half of them with all leaf types different. Each runs on random leaf values; value and every Jacobian (jacobian(x), evalWithJacobians(all)), and the zero Jacobian of an absent leaf, "
            "are compared with the generated reference program and its fourth-order finite differences in long double. Cases that leave the regular domain "
            "(division by less than 0.1, log beyond 3 rad, magnitudes over 1e4) are discarded and not counted. Non-trivial: not discarded.",
    "seconds": 9, "cases": 400000,
    "assumptions": ["arguments of exp are 0 or at least 1e-4 here; C06 covers the rest"],
}
PER = {"quick": (10, 7), "thorough": (48, 8)}


def generate(seed, tier, outdir):
    rng = random.Random("C07-%d" % seed)
    files, per = PER[tier]
    progs, g = progen.make(rng, files * per, "RTPWXOS")
    out = []
    for i in range(files):
        t = ['#include "prog.hpp"']
        for j, p in enumerate(progs[i::files]):
            t.append("FACET(\"program %d %d: %s\", 1) {" % (i, j, p.cpp.replace('"', "'")))
            t.append("    const rp::Regime regime{s};")
            t.append(progen.decl(p))
            t.append("    const auto e = %s;" % p.cpp)
            t.append("    rp::compare(s, e, %s, %s);" % (progen.reffn(p), ", ".join(l[0] for l in p.leaves)))
            for n, ty in enumerate(rng.sample(["wave::RotationQd", "wave::RigidTransformMd", "wave::Pointd", "wave::RelativeRotationd", "wave::Twistd", "wave::Scalar<double>"], 2)):
                t.append("    rp::foreign(e, rp::tame<%s>(s, \"absent\"));" % ty)
            t.append("}")
        f = os.path.join(outdir, "prog%02d.cpp" % i)
        open(f, "w").write("\n".join(t) + "\n")
        out.append(f)
    ops = {}
    for p in progs:
        for o in p.ops:
            ops[o] = ops.get(o, 0) + 1
    return out, {"programs": len(progs), "operations": ops}
