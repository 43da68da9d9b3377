import os, random
import progen
CONFIG = {
    "flags": ["-O1", "-g1", "-fsanitize=thread"],
    "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:report_signal_unsafe=0"},
    "rule": "Random programs; 2 to 4 threads evaluate the same const expression over the same leaves at the same time, each in 1 to 3 randomly chosen ways out of nine (value, forward, one by one, dynamic, dynamic reverse, copies, own proxies, typed). "
            "Also factors, conversions, frames, constants, threads that change leaves of their own. Under ThreadSanitizer; results must equal those of the same evaluations in sequence, bit by bit, whichever of the two runs first. "
            "Non-trivial: at least two threads.",
    "seconds": 14, "cases": 60000, "fuzz": False, "thorough_seconds": 300,
    "assumptions": ["ThreadSanitizer's happens-before analysis sees a race of the operations performed, whatever their interleaving, so the generated schedules need not hit the bad one",
                    "one proxy evaluated by several threads, and Random(), which share unsynchronised state, are outside the property"],
}
PER = {"quick": (8, 5), "thorough": (32, 6)}


def generate(seed, tier, outdir):
    rng = random.Random("C22-%d" % seed)
    files, per = PER[tier]
    progs, g = progen.make(rng, files * per, "RTPWXOS")
    out = []
    for i in range(files):
        t = ['#include "conc.hpp"']
        for j, p in enumerate(progs[i::files]):
            t.append("FACET(\"program %d %d: %s\", 1) {" % (i, j, p.cpp.replace('"', "'")))
            t.append(progen.decl(p))
            t.append("    const auto e = %s;" % p.cpp)
            t.append("    conc::evaluate(s, e, %s);" % ", ".join(l[0] for l in p.leaves))
            t.append("}")
        f = os.path.join(outdir, "prog%02d.cpp" % i)
        open(f, "w").write("\n".join(t) + "\n")
        out.append(f)
    return out, {"programs": len(progs)}
