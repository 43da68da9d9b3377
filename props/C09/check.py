import os, random
import progen
CONFIG = {
    "rule": "Programs generated as for C07. Each runs on one set of drawn elements held in six ways: all plain matrices; and five random assignments of representations to leaves "
            "(matrix, quaternion, negated quaternion, angle-axis, angle-axis less a full turn, flipped axis plus a full turn, 4x4 matrix, quaternion and translation with either sign, memory maps), one of them with all leaves framed. "
            "Values and all Jacobians must agree with the first way. Non-trivial: not discarded for leaving the regular domain.",
    "seconds": 9, "cases": 400000,
    "assumptions": ["representations differ by rounding of the conversion, so results are compared to 1e-9 (values) and 1e-7 (Jacobians) of their size"],
}
PER = {"quick": (10, 4), "thorough": (48, 5)}
HOW = {"R": ["RM", "RQ", "RN", "RA", "RB", "RF", "RMm", "RQm"], "T": ["TM", "TQ", "TN", "TMm"], "P": ["VP", "VPm"], "W": ["VW", "VWm"], "O": ["VO", "VOm"], "X": ["XX", "XXm"], "S": ["SS"], "U": ["SS"]}
FRAMED = {"R": ["RMf", "RQf", "RAf"], "T": ["TMf", "TQf"], "P": ["VPf"], "W": ["VWf"], "O": ["VOf"], "X": ["XXf"], "S": ["SS"], "U": ["SS"]}
BASE = {"R": "reps::base<reps::BaseR>(s)", "T": "reps::base<reps::BaseT>(s)", "P": "reps::base<reps::BaseV>(s)", "W": "reps::rotvec(s)", "O": "reps::base<reps::BaseV>(s)",
        "X": "reps::base<reps::BaseX>(s)", "S": "reps::base<reps::BaseS>(s)", "U": "reps::unitScalar(s)"}


def generate(seed, tier, outdir):
    rng = random.Random("C09-%d" % seed)
    files, per = PER[tier]
    progs, g = progen.make(rng, files * per, "RTPWXOS", local=0)
    out, used = [], {}
    for i in range(files):
        t = ['#include "reps.hpp"']
        for j, p in enumerate(progs[i::files]):
            kinds = [l[1] for l in p.leaves]
            names = [l[0] for l in p.leaves]
            t.append("FACET(\"program %d %d: %s\", 1) {" % (i, j, p.cpp))
            t.append("    const rp::Regime regime{s};")
            for n, k in zip(names, kinds):
                t.append("    const auto b_%s = %s;" % (n, BASE[k]))
            for n in p.nums:
                t.append("    const double %s = rp::tameNum(s, \"%s\");" % (n, n))
            t.append("    const ref::Fn f = %s;" % progen.reffn(p))
            t.append("    const auto prog = [&](%s) { return %s; };" % (", ".join("const auto &%s" % n for n in names), p.cpp))
            ways = [["RM", "TM", "VP", "VW", "VO", "XX", "SS"]["RTPWOXS".index("S" if k == "U" else k)] for k in kinds]
            hows = [ways]
            for v in range(5):
                # normalized() drops frames
                table = FRAMED if v == 4 and 'normalized' not in p.ops else HOW
                h = []
                for k in kinds:
                    c = min(table[k], key=lambda r: (used.get((r, k), 0), rng.random()))
                    used[(c, k)] = used.get((c, k), 0) + 1
                    h.append(c)
                hows.append(h)
            t.append("    reps::Result first; F vt = 0; std::vector<F> jt;")
            for v, h in enumerate(hows):
                t.append("    {")
                for n, w in zip(names, h):
                    t.append("        const reps::%s h_%s(b_%s);" % (w, n, n))
                gets = ", ".join("h_%s.get()" % n for n in names)
                if v == 0:
                    t.append("        const rp::VL l{%s};" % ", ".join("gen::val(h_%s.get())" % n for n in names))
                    t.append("        s.note([&](auto &o) { for (auto &x : l) o << x << \" \"; });")
                    t.append("        vt = rp::valTol(f(l));")
                    t.append("        if (rp::wide()) { const rp::Ref r{f, l}; vt = 2 * r.vtol; for (F x : r.jt) jt.push_back(2 * x); }")
                    t.append("        s.nontrivial();")
                    t.append("        gen::close(gen::val(prog(%s).eval()), f(l), vt, \"value\");" % gets)
                t.append("        const auto e = prog(%s);" % gets)
                t.append("        const auto r = reps::result(e, %s);" % gets)
                if v == 0:
                    t.append("        first = r; if (!rp::wide()) jt.assign(r.J.size(), rp::jacTol(r.J));")
                else:
                    t.append("        reps::same(r, first, vt, jt, \"%s\");" % " ".join(h))
                t.append("    }")
            t.append("}")
        f = os.path.join(outdir, "prog%02d.cpp" % i)
        open(f, "w").write("using F = long double;\n".join(["", ""]) + "\n".join(t) + "\n")
        out.append(f)
    return out, {"programs": len(progs), "representations": {"%s %s" % k: v for k, v in used.items()}}
