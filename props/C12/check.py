import os, random, re
import progen
CONFIG = {
    "flags": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "env": {"ASAN_OPTIONS": "detect_stack_use_after_return=1:detect_leaks=0:abort_on_error=0"},
    "rule": "Programs: random expressions of 2 to 8 operations in which every leaf, named subexpression and number is passed as an lvalue, a temporary, a moved-from object or a const object, some framed, "
            "some with placeholders. What was passed as an rvalue is destroyed (and its stack overwritten) once the expression is built. Then a random history: change leaves, copy / move / pass by value / assign the "
            "expression and destroy the original, evaluate and differentiate in random ways, keep results across later changes, assign the expression to its own operands. Every result is compared with the "
            "reference on the operands' current values, and operands' bytes are compared before and after each evaluation. Run under AddressSanitizer (use-after-free, use-after-scope, use-after-return). "
            "Non-trivial: the whole history stays inside the operations' regular domain.",
    "seconds": 10, "cases": 300000,
    "assumptions": ["tolerances 1e-9 (values), 1e-7 (derivatives)", "AddressSanitizer sees reads of dead memory that it has poisoned; stale stack memory is also overwritten, so it gives wrong values"],
}
PER = {"quick": (16, 3), "thorough": (64, 5)}
FR = {"wave::Translationd": 3, "wave::RelativeRotationd": 3, "wave::Twistd": 3}
PLACE = {"R": "Identity", "T": "Identity", "P": "Zero", "W": "Zero", "X": "Zero"}


def framed(t):
    return t if "Scalar" in t else "wave::Framed<%s%s>" % (t, ", A" * FR.get(t, 2))


def sub(text, name, new):
    return re.sub(r"\b%s\b" % name, new, text)


def facet(i, p, rng, fr):
    t = []
    val = ["l[%d]" % k for k in range(len(p.leaves))]
    txt = {"e": p.cpp}
    for n, x in p.locals:
        txt[n] = x
    mode, cat = {}, []
    lines, kill, uses, const = [], [], [], []
    for k, (n, kind, ty, maker) in enumerate(p.leaves):
        ft = framed(ty) if fr else ty
        m = rng.choice(["ref", "ref", "ref", "cref", "tmp", "move", "auto"])
        if kind in PLACE and rng.random() < 0.07 and not fr:
            m = "place"
        if maker.startswith("rp::tameUnit") and m in ("ref", "cref"):
            m = "tmp"      # (must stay within (-1, 1))
        mode[n] = m
        mk = maker if not fr or kind == "U" else maker.replace(ty, ft)
        if m == "place":
            lines.append("    auto h%s = life::heap(wave::%s<%s>{});" % (n, PLACE[kind], ty))
            rep = "wave::%s<%s>{}" % (PLACE[kind], ty)
            lines.append("    const rp::Val v%s = gen::val(%s{*h%s});" % (n, ty, n))
        else:
            lines.append("    auto h%s = life::heap(%s);" % (n, mk))
            lines.append("    const rp::Val v%s = gen::val(*h%s);" % (n, n))
            rep = {"ref": "(*h%s)", "cref": "life::as_const(*h%s)", "tmp": "life::tmp(*h%s)", "auto": "std::decay_t<decltype(*h%s)>{*h%s}", "move": "life::take(*h%s)"}[m]
            rep = rep % ((n,) * rep.count("%s"))
        if m in ("ref", "cref"):
            uses.append("life::use(*h%s, %d)" % (n, k))
        else:
            kill.append("h%s.reset();" % n)
        for q in txt:
            txt[q] = sub(txt[q], n, rep)
        cat.append(n + ":" + m)
    ref = p.ref
    nums = []
    for n in p.nums:
        lines.append("    auto h%s = life::heap(rp::tameNum(s, \"%s\")); auto r%s = std::make_shared<double>(*h%s);" % (n, n, n, n))
        m = rng.choice(["ref", "cref", "tmp"])
        rep = {"ref": "(*h%s)", "cref": "life::as_const(*h%s)", "tmp": "life::tmp(*h%s)"}[m] % n
        if m == "tmp":
            kill.append("h%s.reset();" % n)
        else:
            nums.append("{h%s.get(), r%s.get()}" % (n, n))
        for q in txt:
            txt[q] = sub(txt[q], n, rep)
        ref = ref.replace("rp::S(%s)" % n, "rp::S(*r%s)" % n)
        cat.append(n + ":" + m)
    for n, _ in p.locals:
        m = rng.choice(["ref", "cref", "tmp", "move"])
        rep = {"ref": "(*h%s)", "cref": "life::as_const(*h%s)", "tmp": "life::tmp(*h%s)", "move": "std::move(*h%s)"}[m] % n
        if m in ("tmp", "move"):
            kill.append("h%s.reset();" % n)
        for q in txt:
            txt[q] = sub(txt[q], n, rep)
        lines.append(("local", n))
        cat.append(n + ":" + m)
    t.append("FACET(\"%sprogram %d: %s [%s]\", 1) {" % ("framed " if fr else "", i, " | ".join([p.cpp] + ["%s = %s" % x for x in p.locals]), " ".join(cat)))
    for x in lines:
        t.append("    auto h%s = life::heap(%s);" % (x[1], txt[x[1]]) if isinstance(x, tuple) else x)
    t.append("    auto e = life::heap(%s);" % txt["e"])
    t.append("    " + " ".join(kill) + " life::clobber(1);")
    t.append("    auto run = life::run(s, std::move(e), [=](const rp::VL &l) { (void) l; return %s; }, {%s}, {%s}%s);"
             % (ref, ", ".join("v" + l[0] for l in p.leaves), ", ".join(nums), "".join(", " + u for u in uses)))
    t.append("    run.history();")
    for k, (n, kind, ty, maker) in enumerate(p.leaves):
        if kind == p.kind and mode[n] == "ref":
            t.append("    run.alias(*h%s, %d);" % (n, k))
    t.append("}")
    return "\n".join(t), mode


def generate(seed, tier, outdir):
    rng = random.Random("C12-%d" % seed)
    files, per = PER[tier]
    g = progen.Gen(rng, share=0.45, local=0.3)
    facets, ops, cats, frn = [], {}, {}, 0
    kinds = "RTPWXOS"
    while len(facets) < files * per:
        i = len(facets)
        p = g.program(kinds[i % len(kinds)], rng.choice([2, 3, 3, 4, 5, 6, 8]), False)
        if any(re.search(r"\b%s\b" % n, " ".join([p.cpp] + [x for _, x in p.locals])) is None for n in [l[0] for l in p.leaves]):
            continue
        text = " ".join([p.cpp] + [x for _, x in p.locals])
        fr = i % 4 == 3 and "normalized" not in text and "rotation()" not in text and "translation()" not in text
        f, mode = facet(i, p, rng, fr)
        facets.append(f)
        frn += fr
        for o in p.ops:
            ops[o] = ops.get(o, 0) + 1
        for m in mode.values():
            cats[m] = cats.get(m, 0) + 1
    out = []
    for i in range(files):
        f = os.path.join(outdir, "life%02d.cpp" % i)
        open(f, "w").write("#include \"life.hpp\"\n" + "\n".join(facets[i::files]) + "\n")
        out.append(f)
    return out, {"programs": len(facets), "framed": frn, "operations": ops, "operand_categories": cats}
