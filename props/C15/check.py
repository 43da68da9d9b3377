import os, random
import progen
CONFIG = {
    "flags": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "rule": "Programs: compounds of 2 to 4 elements, each a random expression of up to 4 operations (or a leaf) yielding a scalar, translation, relative rotation, twist or point, over shared and unshared leaves of all representations. "
            "On random leaf values: value, element access, construction, assignment, every Jacobian in every mode that supports compounds, box-minus, box-plus, comparison, single-element writes, against "
            "the reference value and derivatives of each element, stacked in order, and against the library's own result for each element. Run under AddressSanitizer. Non-trivial: all elements inside the regular domain (others are discarded).",
    "seconds": 9, "cases": 400000,
    "assumptions": ["compounds of rotations or nested compounds are rejected by the compiler and out of scope", "tolerances 1e-9 (values), 1e-7 (reference derivatives)"],
}
PER = {"quick": (9, 3), "thorough": (32, 6)}


def generate(seed, tier, outdir):
    rng = random.Random("C15-%d" % seed)
    files, per = PER[tier]
    g = progen.Gen(rng, share=0.5, local=0.1)
    out, ops, n = [], {}, 0
    texts = [['#include "compound.hpp"'] for _ in range(files)]
    for i in range(files * per):
        points = i % 4 == 3
        kinds = "SPWXO" if points else "SPWX"
        while True:
            p = progen.Prog()
            size = rng.choice([2, 2, 3, 3, 4])
            ks = [rng.choice(kinds) for _ in range(size)]
            if points and "O" not in ks:
                ks[rng.randrange(size)] = "O"
            es = [g.expr(p, k, rng.choice([0, 1, 1, 2, 3, 4]), False) for k in ks]
            if any(e is None or e[2] == "num" for e in es) or len(p.leaves) < 2 or len(p.leaves) > 8:
                continue
            break
        args = ", ".join(e[0] for e in es)
        tmpl = "cmp::ManN" if points else "cmp::VecN"
        t = texts[i % files]
        t.append("FACET(\"compound %d: %s\", 1) {" % (i, args.replace('"', "'")))
        t.append("    const rp::Regime regime{s};")
        t.append(progen.decl(p))
        t.append("    const auto e = wave::internal::makeCompound<%s>(%s);" % (tmpl, args))
        t.append("    cmp::compare<%s>(s, e, {%s}, %s);" % ("false" if points else "true",
                 ", ".join("[=](const rp::VL &l) { (void) l; return %s; }" % e[1] for e in es), ", ".join(l[0] for l in p.leaves)))
        t.append("}")
        n += 1
        for o in p.ops:
            ops[o] = ops.get(o, 0) + 1
    for i, t in enumerate(texts):
        f = os.path.join(outdir, "cmp%02d.cpp" % i)
        open(f, "w").write("\n".join(t) + "\n")
        out.append(f)
    return out, {"compounds": n, "operations": ops}
