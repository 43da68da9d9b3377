"""C18: random statements over the special matrices, compiled for the library's objects and for dense matrices."""
import itertools, os, random

CONFIG = {
    "flags": ["-O0"],
    "rule": "Random matrix statements (assignment, +=, -=, *=, noalias, applyOnTheLeft, row / column / block targets, aliasing targets) over expressions of cross matrices (of vectors, maps, columns, rows, sums, products, negatives; negated; "
            "made once and used after their vector changed), identity matrices of three sizes, dense fixed / row-major / dynamic operands and diagonals, with products, sums, differences, transposes, scalings, blocks, rows, columns and vee; "
            "every generated statement is compiled twice, for the library's objects and for dense long-double matrices, and run in random histories of 1 to 12 statements on small integers: all variables must be equal exactly after each. "
            "Block matrices (36 pairs of left and right types, single and double precision), diagonal block matrices and matrix maps (keys of three types, 0 to 6 rows) are run through random histories against dense models. Non-trivial: all.",
    "seconds": 10, "cases": 3000000,
    "assumptions": ["numbers are small integers, so that exact equality is required; products keep below the mantissa"],
}

class G:
    def __init__(self, rng):
        self.r = rng
    def vec(self, deg):
        """3x1"""
        r = self.r
        k = r.randrange(17) if deg > 1 else r.randrange(7)
        if k < 3: return r.choice(["e.a", "e.b", "e.v", "e.w"]), 1
        if k == 3: return r.choice(["e.m.col(%d)" % r.randrange(3), "e.P.col(%d)" % r.randrange(4), "e.d.col(0)"]) if False else r.choice(["e.m.col(%d)" % r.randrange(3), "e.P.col(%d)" % r.randrange(4), "e.o.col(%d)" % r.randrange(3)]), 1
        if k == 4: return r.choice(["e.r.transpose()", "e.m.row(1).transpose()", "(-e.a)", "(-e.w)", "(e.a + e.b)", "(e.v - e.w)", "(S(2) * e.v)"]), 1
        if k == 5: return r.choice(["e.dv", "e.d.col(0)", "e.J.template block<3, 1>(2, 3)"]), 1
        if k == 6: return "e.vee(%s)" % self.cross(1)[0], 1
        return self.prod(3, 1, deg)
    def vecfix(self, deg):
        """3x1 of fixed size, as the operand of a cross matrix"""
        while True:
            v, d = self.vec(deg)
            if not v.startswith("e.dv") and not v.startswith("e.d."): return v, d
    def cross(self, deg):
        r = self.r
        k = r.randrange(10)
        if k < 3: return "e.cr(%s)" % r.choice(["e.a", "e.b", "e.v"]), 1
        if k < 5: return "e.K" if r.random() < .6 else "e.N", 1
        v, d = self.vecfix(min(deg, 2))
        x = "e.cr(%s)" % v
        return ("(-%s)" % x if r.random() < .35 else x), d
    def sq(self, deg):
        """3x3"""
        r = self.r
        k = r.randrange(14)
        if k < 4: return self.cross(deg)
        if k < 6: return "e.I", 0
        if k == 6: return r.choice(["e.m", "e.n", "e.o"]), 1
        if k == 7: return r.choice(["e.m.transpose()", "e.P.template block<3, 3>(0, 1)", "e.J.template block<3, 3>(1, 2)", "e.Q.template topRows<3>()"]), 1
        if k == 8 and deg > 1: return "(%s + %s)" % (self.atom(), self.atom()), 1
        if k == 9 and deg > 1: return "(%s - %s)" % (self.atom(), self.atom()), 1
        if k == 10:
            x, d = self.sq(deg)
            return r.choice(["(S(2) * %s)", "(%s * S(2))", "(-%s)", "(%s / S(4))", "(3 * %s)", "(%s * 2)"]) % x, d
        if k == 11:
            x, d = self.cross(deg)
            return x + ".transpose()", d
        return self.prod(3, 3, deg) if deg > 1 else self.cross(deg)
    def atom(self):
        r = self.r
        return r.choice([self.cross(1)[0], self.cross(1)[0], "e.I", "e.m", "e.n", "e.o"])
    def row(self, deg):
        r = self.r
        k = r.randrange(7) if deg > 1 else r.randrange(4)
        if k == 0: return "e.r", 1
        if k == 1: return r.choice(["e.a.transpose()", "e.m.row(%d)" % r.randrange(3), "e.Q.row(2)"]), 1
        if k == 2: return "e.dv.transpose()", 1
        if k == 3: return "%s.row(%d)" % (self.cross(1)[0], r.randrange(3)), 1
        return self.prod(1, 3, deg)
    def rect(self, rows, cols, deg):
        r = self.r
        if (rows, cols) == (3, 4):
            return ("e.P", 1) if deg < 2 or r.random() < .5 else self.prod(3, 4, deg)
        if (rows, cols) == (4, 3):
            return ("e.Q", 1) if deg < 2 or r.random() < .5 else self.prod(4, 3, deg)
        if (rows, cols) == (4, 4): return (r.choice(["e.U", "e.I4", "e.I4", "e.U.transpose()"]), 1)
        if (rows, cols) == (6, 6): return (r.choice(["e.J", "e.I6", "e.I6", "(e.I6 * e.J)", "(e.J * e.I6)", "(e.J + e.I6)"]), 1)
        if (rows, cols) == (3, "d"): return ("e.d", 1) if deg < 2 or r.random() < .4 else self.prod(3, "d", deg)
        if (rows, cols) == ("t", 3): return ("e.t", 1) if deg < 2 or r.random() < .4 else self.prod("t", 3, deg)
    def any(self, rows, cols, deg):
        if (rows, cols) == (3, 3): return self.sq(deg)
        if (rows, cols) == (3, 1): return self.vec(deg)
        if (rows, cols) == (1, 3): return self.row(deg)
        return self.rect(rows, cols, deg)
    def prod(self, rows, cols, deg):
        if self.r.random() < .12 and (rows, cols) == (3, 3):
            x, d = self.sq(deg - 1)
            return self.r.choice(["(%s * e.v.asDiagonal())", "(e.w.asDiagonal() * %s)"]) % x, d + 1
        inner = 3 if (rows == 3 and cols == 3) or (rows, cols) in ((3, 1), (1, 3)) else 3 if self.r.random() < .75 or rows == "t" or cols == "d" else 4
        x, d1 = self.any(rows, inner, deg - 1) if rows in (3, 1) or cols != 3 or inner == 4 else self.any(rows, 3, deg - 1)
        y, d2 = self.any(inner, cols, max(1, deg - d1))
        return "(%s * %s)" % (x, y), d1 + d2

TARGETS = {"e.m": (3, 3), "e.n": (3, 3), "e.o": (3, 3), "e.P": (3, 4), "e.Q": (4, 3), "e.d": (3, "d"), "e.t": ("t", 3), "e.v": (3, 1), "e.w": (3, 1), "e.a": (3, 1),
           "e.r": (1, 3), "e.dv": (3, 1), "e.m.col(1)": (3, 1), "e.m.row(2)": (1, 3), "e.P.template block<3, 3>(0, 1)": (3, 3), "e.J.template block<3, 3>(3, 0)": (3, 3), "e.J": (6, 6), "e.U": (4, 4)}
ALIAS = ["e.m = {C} * e.m", "e.m = e.m * {C}", "e.m = e.I * e.m", "e.m = e.m * e.I", "e.v = {C} * e.v", "e.r = e.r * {C}", "e.a = e.cr(e.a) * e.b", "e.b = e.cr(e.a) * e.b", "e.a = e.cr(e.b) * (e.a + e.b)",
         "e.P = {C} * e.P", "e.Q = e.Q * {C}", "e.m *= {C}", "e.n *= e.I", "e.m.col(0) = {C} * e.m.col(2)", "e.m.col(1) = {C} * e.m.col(1)", "e.m.row(1) *= {C}", "e.m.row(0) = e.m.row(1) * {C}",
         "e.m = -{C} * e.m", "e.m += {C} * e.m", "e.m -= e.m * {C}", "e.n.noalias() += {C} * e.m", "e.n.noalias() = e.m * {C}", "e.n.noalias() -= {C} * {C}", "e.m.applyOnTheLeft({C})", "e.m.applyOnTheRight({C})",
         "e.d = {C} * e.d", "e.t = e.t * {C}", "e.d = e.I * e.d", "e.t = e.t * e.I", "e.dv = {C} * e.dv", "e.m = {C}", "e.m += {C}", "e.m -= e.I", "e.m = e.I", "e.n = e.I * {C}", "e.n = {C} * e.I", "e.J.template block<3, 3>(0, 3) = {C}",
         "e.J.template block<3, 3>(0, 3) = {C} * e.J.template block<3, 3>(3, 3)", "e.J.template block<3, 3>(0, 0) = {C} * e.J.template block<3, 3>(0, 0)", "e.v = e.cr(e.v) * e.v", "e.m = e.cr(e.m.col(0)) * e.m", "e.m = e.m * e.cr(e.m.col(2))",
         "e.o = {C} * e.o", "e.o = e.o * {C}", "e.m = {C} * e.o", "e.v += {C} * e.w", "e.v -= {C} * e.v", "e.a = e.vee({C})", "e.v = e.vee({C} + {C})", "e.m = e.I * e.I * {C} * e.I", "e.m = (e.I * e.I) * e.n", "e.r = e.a.transpose() * {C}", "e.m = {C} * {C} * {C}",
         "e.m = -(-{C})", "e.m = -(-{C}) * e.n", "e.m = (-{C}) * (-{C})", "e.n = e.m * (-{C})", "e.v = (-{C}) * e.w", "e.d = (-{C}) * e.d", "e.U = e.I4 * e.U * e.I4", "e.J = e.I6 * e.J", "e.J *= e.I6", "e.P = e.P * e.I4", "e.Q = e.I4 * e.Q",
         "e.d = e.I * e.d * S(2)", "e.m = e.I * S(2) * e.m", "e.m = 3 * e.I - e.m", "e.m = {C}.inverse().cwiseProduct(e.I * S(0)).eval().array().isFinite().select(e.m, e.m).eval()"][:-1]

def statement(g, rng):
    if rng.random() < .3:
        t = rng.choice(ALIAS)
        while "{C}" in t: t = t.replace("{C}", g.cross(1)[0], 1)
        return t
    tgt = rng.choice(list(TARGETS))
    while True:
        x, d = g.any(*TARGETS[tgt], 4)
        if any(k in x for k in ("e.cr", "e.K", "e.N", "e.I", "e.vee")): break
    if tgt in ("e.d", "e.t"):
        op = "="
    else:
        op = rng.choice(["=", "=", "=", "+=", "-="])
    base = tgt.split(".")[1]
    clash = ("e.%s" % base) in x
    if clash: return "%s %s (%s).eval()" % (tgt, op, x)
    if rng.random() < .15 and "." not in tgt[2:]: tgt += ".noalias()"
    return "%s %s %s" % (tgt, op, x)

def program(stmts, S, name):
    o = ['#include "dense.hpp"', "namespace {", "using namespace sm;", "struct Reg { Reg() {", "auto &s = statements<%s>();" % S]
    for t in stmts:
        body = "using S = std::decay_t<decltype(e)>::Sc; (void) sizeof(S); %s;" % t
        o.append('s.push_back({"%s", [](Lib<%s> &e) { %s }, [](Dense &e) { %s }});' % (t.replace('"', "'"), S, body, body))
    o += ["} } reg;", "}"]
    return "\n".join(o)

def generate(seed, tier, outdir):
    rng = random.Random(seed * 7919 + 18)
    g = G(rng)
    per = 60
    out = []
    files = 5 if tier == "quick" else 16
    for i in range(files):
        S = "float" if i == files - 1 else "double"
        stmts = []
        while len(stmts) < per:
            t = statement(g, rng)
            if t not in stmts: stmts.append(t)
        if i == 0:
            for t in ALIAS:
                while "{C}" in t: t = t.replace("{C}", g.cross(1)[0], 1)
                if t not in stmts: stmts.append(t)
        f = os.path.join(outdir, "stmts%d.cpp" % i)
        open(f, "w").write(program(stmts, S, "s%d" % i))
        out.append(f)
    return out, {"generated_statements": files * per}
