"""Random well-typed expression programs: a C++ library expression and, in parallel, the same
computation over the reference model. Operator/operand combinations are drawn with a bias
towards those used least so far, so a few dozen programs cover all of them.

kinds: R rotation, T rigid transform, P translation, W relative rotation, X twist, O point, S scalar
"""
import collections

REPS = {"R": ["wave::RotationMd", "wave::RotationQd", "wave::RotationAd"],
        "T": ["wave::RigidTransformMd", "wave::RigidTransformQd"],
        "P": ["wave::Translationd"], "W": ["wave::RelativeRotationd"], "X": ["wave::Twistd"],
        "O": ["wave::Pointd"], "S": ["wave::Scalar<double>"]}

# result kind -> list of (op name, operand kinds, C++ format, reference format)
OPS = {
    "R": [("compose", "RR", "{} * {}", "mul"), ("inverse", "R", "inverse({})", "inv"), ("exp", "W", "exp({})", "exp"),
          ("boxplus", "RW", "{} + {}", "add"), ("rotation", "T", "{}.rotation()", "rot")],
    "T": [("compose", "TT", "{} * {}", "mul"), ("inverse", "T", "inverse({})", "inv"), ("exp", "X", "exp({})", "exp"),
          ("boxplus", "TX", "{} + {}", "add")],
    "P": [("rotate", "RP", "{} * {}", "mul"), ("transform", "TP", "{} * {}", "mul"), ("sum", "PP", "{} + {}", "add"),
          ("diff", "PP", "{} - {}", "sub"), ("minus", "P", "-{}", "neg"), ("scale", "SP", "{} * {}", "mul"), ("scaleR", "PS", "{} * {}", "mul"),
          ("div", "PS", "{} / {}", "divi"), ("translation", "T", "{}.translation()", "trans"), ("pdiff", "OO", "{} - {}", "sub"),
          ("normalized", "P", "{}.normalized()", "nrmd")],
    "W": [("log", "R", "log({})", "log"), ("boxminus", "RR", "{} - {}", "sub"), ("sum", "WW", "{} + {}", "add"), ("diff", "WW", "{} - {}", "sub"),
          ("minus", "W", "-{}", "neg"), ("scale", "SW", "{} * {}", "mul"), ("scaleR", "WS", "{} * {}", "mul"), ("div", "WS", "{} / {}", "divi"),
          ("normalized", "W", "{}.normalized()", "nrmd")],
    "X": [("log", "T", "log({})", "log"), ("boxminus", "TT", "{} - {}", "sub"), ("sum", "XX", "{} + {}", "add"), ("diff", "XX", "{} - {}", "sub"),
          ("minus", "X", "-{}", "neg"), ("scale", "SX", "{} * {}", "mul"), ("scaleR", "XS", "{} * {}", "mul"), ("div", "XS", "{} / {}", "divi")],
    "O": [("shift", "OP", "{} + {}", "add"), ("shiftL", "PO", "{} + {}", "add"), ("unshift", "OP", "{} - {}", "sub")],
    "S": [("add", "SS", "{} + {}", "add"), ("sub", "SS", "{} - {}", "sub"), ("mul", "SS", "{} * {}", "mul"), ("div", "SS", "{} / {}", "divi"),
          ("minus", "S", "-{}", "neg"), ("dot", "PP", "dot({}, {})", "dot"), ("dot", "WW", "dot({}, {})", "dot"), ("dot", "XX", "dot({}, {})", "dot"),
          ("norm", "P", "{}.norm()", "nrm"), ("norm", "W", "{}.norm()", "nrm"), ("norm", "X", "{}.norm()", "nrm"), ("sqnorm", "P", "{}.squaredNorm()", "sqn"),
          ("sqnorm", "W", "{}.squaredNorm()", "sqn"), ("acos", "U", "acos({})", "acosv")],
}


class Prog:
    def __init__(self):
        self.leaves = []     # (name, kind, type, maker)
        self.nums = []       # plain double variables
        self.locals = []     # (name, C++ text, movable)
        self.nodes = 0
        self.ops = []

    def in_order(self):
        """literals are leaves of the tree too, but not in the list of leaves"""
        import re
        return not re.search(r"[^x\w][0-9]+\.[0-9]", " " + self.cpp + " ".join(l[1] for l in self.locals))


class Gen:
    """shared leaves with probability `share`; named subexpressions with probability `local`"""

    def __init__(self, rng, share=0.35, local=0.2, plain=0.25, numbers=True, kinds="RTPWXOS"):
        self.rng, self.share, self.local, self.plain, self.numbers, self.kinds = rng, share, local, plain, numbers, kinds
        self.used = collections.Counter()
        self.want = None     # the kind of leaf that the program being made should use repeatedly

    def pick_op(self, kind, parent):
        ops = [o for o in OPS[kind] if all(k in self.kinds or k == "U" for k in o[1])]
        w = [1.0 / (1 + 3 * self.used[(kind, o[0], o[1])] + 8 * self.used[(parent, kind, o[0], o[1])]) * (3 if self.want in o[1] else 1) for o in ops] if self.want else \
            [1.0 / (1 + 3 * self.used[(kind, o[0], o[1])] + 8 * self.used[(parent, kind, o[0], o[1])]) for o in ops]
        o = self.rng.choices(ops, w)[0]
        self.used[(kind, o[0], o[1])] += 1
        self.used[(parent, kind, o[0], o[1])] += 1
        return o

    def leaf(self, p, kind, unique):
        same = [l for l in p.leaves if l[1] == kind]
        if same and not unique and self.rng.random() < (0.85 if kind == self.want else self.share):
            l = self.rng.choice(same)
            return l[0], "l[%d]" % p.leaves.index(l)
        reps = REPS["S" if kind == "U" else kind]
        if unique:
            reps = [r for r in reps if r not in [l[2] for l in p.leaves]]
            if not reps:
                return None
        rep = min(reps, key=lambda r: (self.used[("rep", r)], self.rng.random()))
        self.used[("rep", rep)] += 1
        n = "x%d" % len(p.leaves)
        maker = "rp::tameUnit(s, \"%s\")" % n if kind == "U" else "rp::tame<%s>(s, \"%s\")" % (rep, n)
        p.leaves.append((n, kind, rep, maker))
        return n, "l[%d]" % (len(p.leaves) - 1)

    def expr(self, p, kind, budget, unique, parent=None):
        """returns (C++ text, reference text, is_lvalue); None if no unique leaf type is left"""
        rng = self.rng
        if kind == "U":
            l = self.leaf(p, kind, unique)
            return l and (l[0], l[1], True)
        if kind == "S" and parent is not None and self.numbers and rng.random() < (self.plain / 4 if self.want == "S" else self.plain):
            # a plain number: a variable or a literal
            if rng.random() < 0.6:
                n = "n%d" % len(p.nums)
                p.nums.append(n)
                return n, "rp::S(%s)" % n, "num"
            v = rng.choice(["2.0", "-0.5", "1.5", "3.0"])
            return v, "rp::S(%s)" % v, "num"
        if budget <= 0 or (budget <= 2 and rng.random() < 0.3):
            l = self.leaf(p, kind, unique)
            return l and (l[0], l[1], True)
        for attempt in range(4):
            save = (list(p.leaves), list(p.nums), list(p.locals), p.nodes, list(p.ops))
            name, args, cpp, rf = self.pick_op(kind, parent)
            p.nodes += 1
            p.ops.append(name)
            n = len(args)
            if n == 2:
                a = rng.randint(0, budget - 1)
                bs = [a, budget - 1 - a]
            else:
                bs = [budget - 1]
            subs, ok = [], True
            for i, (k, b) in enumerate(zip(args, bs)):
                e = self.expr(p, k, b, unique, (kind, name, i))
                if e is None:
                    ok = False
                    break
                # a binary operation on two plain numbers is not an expression
                if e[2] == "num" and len(subs) and subs[0][2] == "num":
                    e = self.leaf(p, k, unique)
                    if e is None:
                        ok = False
                        break
                    e = (e[0], e[1], True)
                if e[2] == "num" and n == 1:
                    e = self.leaf(p, k, unique)
                    if e is None:
                        ok = False
                        break
                    e = (e[0], e[1], True)
                subs.append(e)
            if not ok:
                p.leaves, p.nums, p.locals, p.nodes, p.ops = save
                continue
            txt = cpp.format(*[s[0] if s[2] else "(%s)" % s[0] for s in subs])
            ref = "rp::%s(%s)" % (rf, ", ".join(s[1] for s in subs))
            if rng.random() < self.local:
                t = "t%d" % len(p.locals)
                p.locals.append((t, txt))
                return t, ref, True
            return txt, ref, False
        l = self.leaf(p, kind, unique)
        return l and (l[0], l[1], True)

    def program(self, kind, budget, unique=False):
        tries = 0
        self.want = None if unique else min(self.kinds, key=lambda k: (self.used[("repeated", k)], self.rng.random()))
        while True:
            p = Prog()
            tries += 1
            e = self.expr(p, kind, budget, unique)
            if e is None or e[2] is True and not p.locals or e[2] == "num":
                continue
            if not p.leaves:
                continue
            p.cpp, p.ref, p.kind, p.unique = e[0], e[1], kind, unique
            repeated = {l[1] for i, l in enumerate(p.leaves) if p.ref.count("l[%d]" % i) > 1}
            if self.want and self.want not in repeated and tries < 40:
                continue
            for k in repeated:
                self.used[("repeated", k)] += 1
            return p


def decl(p, ind="    "):
    """declarations of leaves, numbers and named subexpressions"""
    o = []
    for n, k, t, m in p.leaves:
        o.append("%sconst auto %s = %s;" % (ind, n, m))
    for n in p.nums:
        o.append("%sconst double %s = rp::tameNum(s, \"%s\");" % (ind, n, n))
    for t, x in p.locals:
        o.append("%sconst auto %s = %s;" % (ind, t, x))
    return "\n".join(o)


def reffn(p):
    return "[=](const rp::VL &l) { (void) l; return %s; }" % p.ref


def make(rng, n, kinds, **kw):
    """n programs, cycling through the result kinds, alternating unique and repeated leaves"""
    g = Gen(rng, **kw)
    out = []
    for i in range(n):
        k = kinds[i % len(kinds)]
        unique = (i // len(kinds)) % 2 == 1
        out.append(g.program(k, rng.choice([2, 3, 3, 4, 5, 6, 8]), unique))
    return out, g
