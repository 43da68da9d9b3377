import concurrent.futures as cf, os, random, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frames as fm
from frames import Reject, framed, flist

CONFIG = {
    "rule": "Part 1 (the compiler decides): statements with framed operands. For every operation, with random representations and ways of writing the operands (lvalue, rvalue, const, frame_cast, inverse or negative of the "
            "turned object, proxy, Zero/Identity placeholder), frame assignments up to renaming (all consistent ones, and near misses first among the inconsistent), and mixtures of framed and unframed operands; "
            "constructions, assignments, argument passing, proxies and parts of transforms, with all pairs of frames; random consistent expressions of 2 to 7 operations and copies with one frame of one leaf changed. "
            "A model of the frame algebra says for each statement whether it must be accepted, and with which frames in the result (static_assert on the type of eval()). "
            "Part 2: generated consistently framed programs, run in all differentiation modes, against the reference and against the same program on unframed leaves. "
            "Non-trivial: distinct statements; runs not discarded for leaving the regular domain.",
    "seconds": 8, "cases": 400000,
    "assumptions": ["the frame rules are those of frames.py: composition, rotation and transformation need adjacent frames to agree, sums and differences the rules of displacement algebra, box-plus a tangent vector <a,a,b> for an element <a,b>",
                    "the reason why a statement is rejected is not examined, but the same statement with consistent frames must be accepted"],
}
HEAD = """#include "pch.hpp"
using wave::list;
"""
PCH = """#include <wave/geometry/geometry.hpp>
#include <wave/geometry/dynamic.hpp>
namespace wave {
template <typename...> struct list {};
template <typename T> struct frames_of { using type = list<>; };
template <typename L, typename... F> struct frames_of<Framed<L, F...>> { using type = list<F...>; };
template <typename E> using result_frames = typename frames_of<std::decay_t<decltype(std::declval<const E &>().eval())>>::type;
template <typename E, typename F> constexpr bool results_in() { return std::is_same<result_frames<E>, F>::value; }
}
"""
QUICK = dict(groups=62, cap=34, progs=48, asg=36)
THOROUGH = dict(groups=700, cap=240, progs=1500, asg=400)


class Case:
    """one statement: kind of statement, C++ body, parameters, accepted?, list of result frames"""
    __slots__ = ("what", "params", "body", "ok", "frames", "desc")

    def __init__(self, what, params, body, ok, frames):
        self.what, self.params, self.body, self.ok, self.frames = what, params, body, ok, frames

    def text(self, i):
        ns = "i%d::" % i
        names = sorted(set(re.findall(r"@(\w)", self.params + self.body)))
        return "namespace i%d { %s } void f%d(%s) { %s }" % (
            i, " ".join("struct %s;" % n for n in names), i, re.sub(r"@(\w)", ns + r"\1", self.params), re.sub(r"@(\w)", ns + r"\1", self.body))


def split(sizes, part):
    out, k = [], 0
    for n in sizes:
        out.append(tuple(part[k:k + n]))
        k += n
    return out


def op_cases(rng, n, cap):
    """groups: one operation with one choice of representations and ways of writing the operands, for (a sample of) all frame assignments up to renaming"""
    cases, used = [], {}
    order = []
    while len(order) < n:
        o = list(fm.OPS)
        rng.shuffle(o)
        order += o
    for name, kinds, fmt, rk, fn in order[:n]:
        hows = [rng.choice(fm.HOW) for _ in kinds]
        leaves = [rng.choice(fm.REPS[k]) for k in kinds]
        if all(h == "constant" for h in hows):
            hows[0] = "lvalue"
        sizes = [fm.NF[k] for k in kinds]
        parts = list(fm.partitions(sum(sizes)))
        assigns = [split(sizes, p) for p in parts]
        good, bad = [], []
        for fr in assigns:
            # each operand in turn without frames, and all of them
            (good if accepts(fn, fr) else bad).append(fr)
        for un in ([[0], [1], [0, 1]] if len(kinds) == 2 else [[0]]):
            if any(sizes[i] == 0 for i in un):
                continue
            fr = list(rng.choice(assigns))
            for i in un:
                fr[i] = ("N",) * sizes[i]
            (good if accepts(fn, fr) else bad).append(fr)
        # the near misses (few blocks) come first in a sample
        bad.sort(key=lambda fr: (len(set(sum(fr, ()))), rng.random()))
        take = good if len(good) <= cap // 3 else rng.sample(good, cap // 3)
        rest = cap - len(take)
        take = take + bad[:rest // 2] + rng.sample(bad[rest // 2:], min(max(len(bad) - rest // 2, 0), rest - rest // 2))
        for fr in take:
            cases.append(statement("operation " + name, fmt, kinds, fr, leaves, hows, rk, fn, rng.random() < 0.25))
    return cases


def accepts(fn, fr):
    try:
        fn(*fr)
        return True
    except Reject:
        return False


def statement(what, fmt, kinds, fr, leaves, hows, rk, fn, store, ns="@"):
    params, texts = [], []
    for i, (k, f, l, h) in enumerate(zip(kinds, fr, leaves, hows)):
        p, t = fm.operands(k, f, l, h, "x%d" % i, ns)
        if p:
            params.append(p)
        texts.append(t)
    e = fmt.format(*texts)
    body = "auto e = %s;" % e
    try:
        res = fn(*fr)
        ok = True
        body += " static_assert(wave::results_in<decltype(e), %s>(), \"frames of the result\");" % flist(res, ns)
        if store:
            body += leaf_assign(rk, res, ns)
    except Reject:
        res, ok = None, False
    return Case(what, ", ".join(params), body, ok, res)


def leaf_assign(kind, res, ns, name="t", e="e"):
    L = framed(fm.REPS[kind][-1], res, ns)
    return " %s %s{%s}; %s = %s;" % (L, name, e, name, e)


FORMS = [("construct", "{L} t{{{e}}};"), ("construct by copy", "{L} t = {e};"), ("assign", "{L} t; t = {e};"), ("pass by value", "auto f = []({L}) {{}}; f({e});"),
         ("proxy", "wave::Proxy<{L}> t{{{e}}};"), ("proxy assign", "wave::Proxy<{L}> *t = nullptr; *t = {e};")]


def assign_cases(rng, n, cap):
    """an expression of any frames put into an object of any frames; also into parts of transforms"""
    cases = []
    for i in range(n):
        k = "RTPWXO"[i % 6]
        form, txt = FORMS[(i // 6) % len(FORMS)]
        part = rng.random() < 0.25 and k in "RP"
        if part:
            form, txt = ("part", "t.rotation() = {e};" if k == "R" else "t.translation() = {e};")
        how = rng.choice([h for h in fm.HOW if h != "constant"])
        leaf = rng.choice(fm.REPS[k])
        target = rng.choice(fm.REPS["T" if part else k])
        if form.startswith("proxy"):
            target = leaf
            how = rng.choice(["rvalue", "turned"]) if k != "O" else "rvalue"
            if leaf == "wave::RotationMd" and how == "turned":
                how = "rvalue"    # the value of inverse(matrix) is a matrix of the other storage order
        na = 2 if part else fm.NF[k]
        allp = [split([na, fm.NF[k]], p) for p in fm.partitions(na + fm.NF[k])]
        # target frames first
        allp += [[("N",) * na, allp[-1][1]], [allp[-1][0], ("N",) * fm.NF[k]]]
        agree = lambda tf, sf: (fm.vec(tf) if part and k == "P" else tf) == sf
        good = [p for p in allp if agree(*p)]
        bad = [p for p in allp if not agree(*p)]
        bad.sort(key=lambda fr: (len(set(sum(fr, ()))), rng.random()))
        rest = max(cap - len(good), 0)
        for tf, sf in good + bad[:rest]:
            p, e = fm.operands(k, sf, leaf, how, "x", "@")
            L = framed(target, tf, "@")
            body = txt.format(L=L, e=e)
            ps = [p] + (["%s &t" % L] if part else [])
            cases.append(Case("assignment: " + form, ", ".join(ps), body, agree(tf, sf), tf))
    return cases


# ---- whole expressions -------------------------------------------------------------------

class Node:
    def __init__(self, op, kids, leaf=None):
        self.op, self.kids, self.leaf = op, kids, leaf

    def frames(self, env):
        if self.op is None:
            return env[self.leaf]
        return self.op[4](*[k.frames(env) for k in self.kids])

    def text(self, name):
        if self.op is None:
            return name(self.leaf)
        ts = []
        for k in self.kids:
            t = k.text(name)
            ts.append(t if k.op is None else "(%s)" % t)
        return self.op[2].format(*ts)

    def size(self):
        return 1 + sum(k.size() for k in self.kids)

    def leaves(self, out=None):
        out = [] if out is None else out
        if self.op is None:
            if self.leaf not in out:
                out.append(self.leaf)
        for k in self.kids:
            k.leaves(out)
        return out


class Tree:
    """top-down generation of a consistently framed expression with given frames"""

    def __init__(self, rng, share=0.4, nframes=5):
        self.rng, self.share = rng, share
        self.kind, self.env = {}, {}
        self.pool = "ABCDEFGH"[:nframes]

    def fresh(self):
        return self.rng.choice(self.pool)

    def leaf(self, kind, fr):
        for n, k in self.kind.items():
            if k == kind and self.env[n] == fr and self.rng.random() < self.share:
                return Node(None, [], n)
        n = "x%d" % len(self.kind)
        self.kind[n], self.env[n] = kind, fr
        return Node(None, [], n)

    def gen(self, kind, fr, budget):
        rng = self.rng
        if budget <= 0:
            return self.leaf(kind, fr)
        ops = [o for o in fm.OPS if o[3] == kind]
        for _ in range(12):
            o = rng.choices(ops, [0.3 if o[0].startswith(("scale", "div")) else 1.5 if o[0] in ("log", "boxminus", "transform", "translation", "exp") else 1 for o in ops])[0]
            kf = self.operand_frames(o, fr)
            if kf is None:
                continue
            n = len(kf)
            bs = [budget - 1] if n == 1 else None
            if n == 2:
                a = rng.randint(0, budget - 1)
                bs = [a, budget - 1 - a]
            return Node(o, [self.gen(k, f, b) for k, f, b in zip(o[1], kf, bs)])
        return self.leaf(kind, fr)

    def operand_frames(self, o, fr):
        """random operand frames which give fr"""
        name, kinds, _, rk, fn = o
        f = self.fresh
        if name == "compose":
            b = f()
            return [(fr[0], b), (b, fr[1])]
        if name == "inverse":
            return [(fr[1], fr[0])]
        if name == "rotate":
            b = f()
            return [(fr[0], b), (b, fr[1], fr[2])]
        if name == "transform":
            b = f()
            return [(fr[0], b), (b, b, fr[2])] if fr[0] == fr[1] else None
        if name == "exp":
            return [(fr[0], f(), f())] if fr[0] == fr[1] else None
        if name == "log":
            return [(fr[0], fr[2])] if fr[0] == fr[1] else None
        if name == "boxplus":
            return [fr, (fr[0], fr[0], fr[1])]
        if name == "boxminus":
            return [(fr[0], fr[2])] * 2 if fr[0] == fr[1] else None
        if name == "rotation":
            return [fr]
        if name == "translation":
            return [(fr[0], fr[2])] if fr[0] == fr[1] else None
        if name == "minus":
            return [(fr[0], fr[2], fr[1])]
        if name in ("scaleNum", "scaleNumR", "divNum", "normalized"):
            return [fr]
        if name == "scale":
            return [(), fr]
        if name in ("scaleR", "div"):
            return [fr, ()]
        if name == "dot":
            l = f()
            return [(l, f(), f()), (l, f(), f())]
        if name in ("norm", "sqnorm"):
            return [(f(), f(), f())]
        # sums and differences: try
        sizes = [fm.NF[k] for k in kinds]
        for _ in range(60):
            pool = list(fr) + [f()]
            kf = [tuple(self.rng.choice(pool) for _ in range(n)) for n in sizes]
            try:
                if fn(*kf) == fr:
                    return kf
            except Reject:
                pass
        return None


def tree(rng, kind, budget, **kw):
    while True:
        t = Tree(rng, **kw)
        fr = tuple(t.fresh() for _ in range(fm.NF[kind]))
        t.root = t.gen(kind, fr, budget)
        t.result = fr
        if t.root.op is not None:
            return t


def program_cases(rng, n):
    cases = []
    for i in range(n):
        kind = "RTPWXOPS"[i % 8]
        t = tree(rng, kind, rng.choice([2, 3, 4, 5, 7]))
        reps = {l: rng.choice(fm.REPS[k]) for l, k in t.kind.items()}
        variants = [dict(t.env)]
        changeable = [l for l in t.env if t.env[l]]
        for _ in range(3 if changeable else 0):
            e = dict(t.env)
            l = rng.choice(changeable)
            f = list(e[l])
            j = rng.randrange(len(f))
            f[j] = rng.choice([x for x in "ABCDEFZ" if x != f[j]])
            e[l] = tuple(f)
            variants.append(e)
        for v, env in enumerate(variants):
            params = ", ".join("%s &%s" % (framed(reps[l], env[l], "@"), l) for l in t.kind)
            body = "auto e = %s;" % t.root.text(lambda l: l)
            try:
                res = t.root.frames(env)
                ok = True
                body += " static_assert(wave::results_in<decltype(e), %s>(), \"frames of the result\");" % flist(res, "@")
                if v == 1:
                    body += leaf_assign(kind, res, "@")
            except Reject:
                res, ok = None, False
            c = Case("whole expression" if v == 0 else "one frame changed", params, body, ok, res)
            cases.append(c)
    return cases


# ---- results do not depend on frames ------------------------------------------------------

REF = {"compose": "rp::mul({0}, {1})", "inverse": "rp::inv({0})", "rotate": "rp::mul({0}, {1})", "transform": "rp::mul({0}, {1})", "exp": "rp::exp({0})", "log": "rp::log({0})",
       "boxplus": "rp::add({0}, {1})", "boxminus": "rp::sub({0}, {1})", "rotation": "rp::rot({0})", "translation": "rp::trans({0})", "shift": "rp::add({0}, {1})", "shiftL": "rp::add({0}, {1})",
       "unshift": "rp::sub({0}, {1})", "pdiff": "rp::sub({0}, {1})", "sum": "rp::add({0}, {1})", "diff": "rp::sub({0}, {1})", "minus": "rp::neg({0})", "scale": "rp::mul({0}, {1})",
       "scaleR": "rp::mul({0}, {1})", "div": "rp::divi({0}, {1})", "scaleNum": "rp::mul(rp::S(2.5), {0})", "scaleNumR": "rp::mul({0}, rp::S(0.5))", "divNum": "rp::divi({0}, rp::S(4.0))",
       "dot": "rp::dot({0}, {1})", "norm": "rp::nrm({0})", "sqnorm": "rp::sqn({0})", "normalized": "rp::nrmd({0})"}


def reftext(n, names):
    if n.op is None:
        return "l[%d]" % names.index(n.leaf)
    return REF[n.op[0]].format(*[reftext(k, names) for k in n.kids])


def count(n, c):
    if n.op is None:
        c[n.leaf] = c.get(n.leaf, 0) + 1
    for k in n.kids:
        count(k, c)
    return c


def opcount(n, c):
    if n.op is not None:
        c[n.op[0] + n.op[1]] = c.get(n.op[0] + n.op[1], 0) + 1
    for k in n.kids:
        opcount(k, c)
    return c


def generate(seed, tier, outdir):
    rng = random.Random("C11-run-%d" % seed)
    files, per = (8, 4) if tier == "quick" else (48, 6)
    used, out, total = {}, [], 0
    for i in range(files):
        t = ['#include "frames.hpp"', "namespace { " + " ".join("struct %s;" % c for c in "ABCDEFGH") + " }"]
        for j in range(per):
            kind = "RTPWXOS"[total % 7]
            # of some candidates, the one with the rarest operations
            cands = [tree(rng, kind, rng.choice([2, 3, 3, 4, 5, 6]), share=0.25, nframes=4) for _ in range(12)]
            cands = [c for c in cands if 1 <= len(c.kind) <= 5] or cands
            tr = max(cands, key=lambda c: sum(1.0 / (1 + 3 * used.get(o, 0)) for o in opcount(c.root, {})))
            opcount(tr.root, used)
            names = tr.root.leaves()
            reps = {l: rng.choice(fm.REPS[tr.kind[l]]) for l in names}
            text = tr.root.text(lambda l: l)
            once = all(v == 1 for v in count(tr.root, {}).values())
            rev = "true" if once and not re.search(r"[0-9]\.[0-9]", text) else "false"
            t.append("FACET(\"program %d %d: %s\", 1) {" % (i, j, text))
            for l in names:
                t.append("    const auto u%s = rp::tame<%s>(s, \"%s\");" % (l, reps[l], l))
            t.append("    auto make = [](%s) { return %s; };" % (", ".join("const auto &" + l for l in names), text))
            for l in names:
                t.append("    const %s f%s{%s};" % (framed(reps[l], tr.env[l], ""), l, "wave::frame_cast<%s>(u%s)" % (", ".join(tr.env[l]), l) if tr.env[l] else "u" + l))
            fr = ", ".join("f" + l for l in names)
            un = ", ".join("u" + l for l in names)
            t.append("    const auto e = make(%s);\n    const auto u = make(%s);" % (fr, un))
            t.append("    rp::modes<%s>(s, e, [=](const rp::VL &l) { (void) l; return %s; }, %s);" % (rev, reftext(tr.root, names), fr))
            t.append("    rp::unaffected(e, u, std::tie(%s), std::tie(%s), std::make_index_sequence<%d>{});" % (fr, un, len(names)))
            t.append("}")
            total += 1
        f = os.path.join(outdir, "frames%02d.cpp" % i)
        open(f, "w").write("\n".join(t) + "\n")
        out.append(f)
    return out, {"programs_run": total, "operations_in_programs": used}


# ---- deciding ----------------------------------------------------------------------------

def flags(ctx, d):
    return ["g++"] + ctx["base"] + ["-fsyntax-only", "-ftemplate-backtrace-limit=0"] + ctx["inc"] + ["-I" + d]


def compile_batch(ctx, d, name, cases):
    """set of indices of rejected statements"""
    f = os.path.join(d, name + ".cpp")
    with open(f, "w") as o:
        o.write(HEAD)
        for i, c in enumerate(cases):
            o.write(c.text(i) + "\n")
    off = HEAD.count("\n") + 1
    rc, out = ctx["sh"](flags(ctx, d) + [f], timeout=800)
    rejected = set()
    for m in re.finditer(r"(?:^|[\s,(])" + re.escape(f) + r":(\d+)", out):
        i = int(m.group(1)) - off
        if 0 <= i < len(cases):
            rejected.add(i)
    if rc == 0:
        rejected = set()
    return rejected


def alone(ctx, d, c, name):
    f = os.path.join(d, name + ".cpp")
    text = HEAD + c.text(0) + "\n"
    open(f, "w").write(text)
    rc, out = ctx["sh"](flags(ctx, d) + [f], timeout=800)
    return rc == 0, out, text


def make_pch(ctx, d):
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "pch.hpp"), "w").write(PCH)
    cmd = ["g++"] + ctx["base"] + ctx["inc"] + ["-x", "c++-header", os.path.join(d, "pch.hpp"), "-o", os.path.join(d, "pch.hpp.gch")]
    rc, out = ctx["sh"](cmd, timeout=600)
    if rc != 0:
        raise ctx["Violation"](ctx["save_replay"]("C11", {"property": "C11", "kind": "header", "errors": out[-4000:]}), "the library's headers do not compile:\n" + ctx["first_errors"](out))


def run(ctx):
    d = os.path.join(ctx["bdir"], "frames")
    make_pch(ctx, d)
    cfg = QUICK if ctx["tier"] == "quick" else THOROUGH
    rng = random.Random("C11-%d" % ctx["seed"])
    cases = op_cases(rng, cfg["groups"], cfg["cap"]) + assign_cases(rng, cfg["asg"], 16 if ctx["tier"] == "quick" else 60) + program_cases(rng, cfg["progs"])
    # statements of one kind are spread, so that no batch is the slowest
    order = list(range(len(cases)))
    rng.shuffle(order)
    size = 60
    batches = [[cases[i] for i in order[k:k + size]] for k in range(0, len(order), size)]
    wrong = []
    with cf.ThreadPoolExecutor(ctx["jobs"]) as ex:
        res = list(ex.map(lambda kb: compile_batch(ctx, d, "b%d" % kb[0], kb[1]), enumerate(batches)))
    for b, rej in zip(batches, res):
        for i, c in enumerate(b):
            if (i not in rej) != c.ok:
                wrong.append(c)
    ctx["log"]("C11: %d statements, %d to be looked at alone" % (len(cases), len(wrong)))
    wrong.sort(key=lambda c: len(c.params) + len(c.body))
    n = 0
    with cf.ThreadPoolExecutor(ctx["jobs"]) as ex:
        alo = list(ex.map(lambda kc: alone(ctx, d, kc[1], "a%d" % kc[0]), enumerate(wrong)))
    bad = [(c, r) for c, r in zip(wrong, alo) if r[0] != c.ok]
    if os.environ.get("SHOW_BAD"):
        for c, r in bad:
            ctx["log"]("BAD", c.what, "expected", c.ok, c.frames, "\n   ", re.sub("wave::|@", "", c.params), "|", re.sub("wave::|@", "", c.body), "\n     ", ctx["first_errors"](r[1])[:300])
    for c, (acc, out, text) in bad:
        rec = {"property": "C11", "kind": "frames", "statement": text, "expected": "accepted" if c.ok else "rejected", "prelude": PCH, "errors": ctx["first_errors"](out)}
        why = ("is not accepted with the frames %s:\n%s" % (list(c.frames or ()), ctx["first_errors"](out))) if c.ok else "is accepted, although its frames are inconsistent"
        raise ctx["Violation"](ctx["save_replay"]("C11", rec), "%s: the statement\n  %s\n%s" % (c.what, text.splitlines()[-1], why))
    acc = sum(c.ok for c in cases)
    return {"evaluations": len(cases), "distinct_nontrivial": len(set(c.text(0) for c in cases)), "statements_consistent": acc, "statements_inconsistent": len(cases) - acc,
            "samples": [c.text(0)[:400] for c in rng.sample(cases, min(6, len(cases)))]}


def replay(rec):
    import run as _r
    print(rec.get("statement"), "\nexpected to be", rec.get("expected"))
    if rec["kind"] != "frames":
        return 1
    d = os.path.join(_r.BUILD, "replay_C11")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "pch.hpp"), "w").write(rec["prelude"])
    f = os.path.join(d, "t.cpp")
    open(f, "w").write(rec["statement"])
    rc, out = _r.sh(["g++"] + _r.BASE + ["-fsyntax-only"] + _r.INC + ["-I" + d, f])
    print(_r.first_errors(out) if rc else "accepted")
    return 1 if (rc == 0) != (rec["expected"] == "accepted") else 0
