import os, random
import progen
CONFIG = {
    "rule": "Programs are generated as for C07, half of them trees of unique leaf types. Every case evaluates one program in all modes (forward, dynamic forward, typed forward, reverse, dynamic reverse, "
            "automatic choice; all leaves together, one by one, in the opposite order) and compares values (1e-12 relative) and Jacobians (1e-11 of the largest entry) with forward mode, "
            "whose value is compared with the reference in every case and whose Jacobians in one case of eight. Non-trivial: not discarded for leaving the regular domain.",
    "seconds": 9, "cases": 600000,
}
PER = {"quick": (10, 5), "thorough": (48, 7)}


def generate(seed, tier, outdir):
    rng = random.Random("C08-%d" % seed)
    files, per = PER[tier]
    progs, g = progen.make(rng, files * per, "RTPWXOS", numbers=False)
    withnum, _ = progen.make(rng, files, "SPWX")
    out = []
    for i in range(files):
        t = ['#include "modes.hpp"']
        for j, p in enumerate(progs[i::files] + withnum[i::files]):
            t.append("FACET(\"program %d %d: %s\", 1) {" % (i, j, p.cpp))
            t.append("    const rp::Regime regime{s};")
            t.append(progen.decl(p))
            t.append("    const auto e = %s;" % p.cpp)
            # in reverse mode the Jacobians come in the order in which the leaves appear in the tree
            rev = "true" if p.unique and not p.nums and p.in_order() else "false"
            t.append("    rp::modes<%s>(s, e, %s, %s);" % (rev, progen.reffn(p), ", ".join(l[0] for l in p.leaves)))
            t.append("}")
        f = os.path.join(outdir, "prog%02d.cpp" % i)
        open(f, "w").write("\n".join(t) + "\n")
        out.append(f)
    return out, {"programs": len(progs) + len(withnum), "with_reverse_mode": sum(1 for p in progs if p.unique)}
