import os, random
import progen
N = ["-DNDEBUG"]
CONFIG = {
    "rule": "Each build configuration (two compilers, -O0 to -O3, with and without assertions, native instruction set, vectorisation and alignment off, 32-byte alignment, fast-math off, C++17 / C++20 / C++23) gets its own random "
            "programs, the expression being returned from a function so that its temporaries are gone, some leaves lying in memory of any alignment; all differentiation modes are compared with the reference; and hand-written facets use leaves at odd addresses, in containers, "
            "in expressions returned by value, proxies and Dynamic objects. Non-trivial: not discarded.",
    "seconds": 6, "cases": 200000, "fuzz": False, "thorough_seconds": 40,
    "assumptions": ["the configurations are those the installed compilers offer for this machine (x86-64); -ffast-math is not a supported configuration"],
    "variants": [
        {"name": "gcc-O0", "compiler": "g++", "flags": ["-O0"]},
        {"name": "gcc-O2-release", "compiler": "g++", "flags": ["-O2"] + N},
        {"name": "gcc-O3-native-release", "compiler": "g++", "flags": ["-O3", "-march=native"] + N},
        {"name": "gcc-O1-unaligned", "compiler": "g++", "flags": ["-O1", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_MAX_ALIGN_BYTES=0"]},
        {"name": "gcc-O1-c++20", "compiler": "g++", "flags": ["-O1", "-std=c++20", "-mavx2", "-DEIGEN_MAX_ALIGN_BYTES=32"]},
        {"name": "clang-O2", "compiler": "clang++", "flags": ["-O2"]},
        {"name": "clang-O3-native-release", "compiler": "clang++", "flags": ["-O3", "-march=native", "-std=c++20"] + N},
    ],
}
PER = {"quick": 5, "thorough": 40}      # programs per configuration
FILE = 5                                # programs per file


def generate(seed, tier, outdir, variants=None):
    rng = random.Random("C23-%d" % seed)
    names = [v["name"] for v in CONFIG["variants"]]
    per = PER[tier]
    progs, g = progen.make(rng, per * len(names), "RTPWXOS")
    files = {}
    for k, n in enumerate(names):
        mine = progs[k::len(names)]
        for i in range(0, per, FILE):
            t = ['#include "odd.hpp"']
            for j, p in enumerate(mine[i:i + FILE]):
                t.append("FACET(\"%s program %d: %s\", 1) {" % (n, i + j, p.cpp.replace('"', "'")))
                d = progen.decl(p)
                for l in p.leaves:      # some leaves are held in memory of any alignment
                    if not p.unique and rng.random() < 0.5 and ("const auto %s = rp::tame<%s>(s, \"%s\");" % (l[0], l[2], l[0])) in d:
                        d = d.replace("const auto %s = rp::tame<%s>(s, \"%s\");" % (l[0], l[2], l[0]),
                                      "const odd::Held<%s> h%s(s, rp::tame<%s>(s, \"%s\")); const auto &%s = h%s.leaf;" % (l[2], l[0], l[2], l[0], l[0], l[0]))
                t.append(d)
                t.append("    const auto e = [&] { return %s; }();" % p.cpp)
                rev = "true" if p.unique and not p.nums and p.in_order() and not any(c.isdigit() and "." in p.cpp for c in p.cpp) else "false"
                t.append("    rp::modes<%s>(s, e, %s, %s);" % (rev, progen.reffn(p), ", ".join(l[0] for l in p.leaves)))
                t.append("}")
            f = os.path.join(outdir, "%s_%02d.cpp" % (n.replace("+", "p"), i))
            open(f, "w").write("\n".join(t) + "\n")
            files.setdefault(n, []).append(f)
    return files, {"programs": len(progs), "configurations": [v["name"] + ": " + v["compiler"] + " " + " ".join(v["flags"]) for v in CONFIG["variants"]]}
