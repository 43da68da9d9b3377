"""The frame algebra of the library, as a model, and generators of framed statements.

kinds: R rotation, T rigid transform, O point: frames (left, right)
       P translation, W relative rotation, X twist: frames (left, middle, right); S scalar: ()
'N' is "no frame": an unframed leaf has N in all places.
"""
NF = {"R": 2, "T": 2, "O": 2, "P": 3, "W": 3, "X": 3, "S": 0}
REPS = {"R": ["wave::RotationMd", "wave::RotationQd", "wave::RotationAd"], "T": ["wave::RigidTransformMd", "wave::RigidTransformQd"],
        "P": ["wave::Translationd"], "W": ["wave::RelativeRotationd"], "X": ["wave::Twistd"], "O": ["wave::Pointd"], "S": ["wave::Scalar<double>"]}


class Reject(Exception):
    pass


def need(c):
    if not c:
        raise Reject()


def compose(a, b):
    need(a[1] == b[0])
    return (a[0], b[1])


def inverse(a):
    return (a[1], a[0])


def rotate(a, b):
    need(a[1] == b[0])
    return (a[0], b[1], b[2])


def transform(a, b):
    # the vector is the position of its right frame relative to the transform's right frame
    need(a[1] == b[0] == b[1])
    return (a[0], a[0], b[2])


def vsum(a, b):
    need(a[0] == b[0])
    if a[2] == b[1]:
        return (a[0], a[1], b[2])
    need(b[2] == a[1])
    return (a[0], b[1], a[2])


def vsub(a, b):
    need(a[0] == b[0])
    if a[2] == b[2]:
        return (a[0], a[1], b[1])
    need(a[1] == b[1])
    return (a[0], b[2], a[2])


def vec(o):
    return (o[0], o[0], o[1])


def point(v):
    need(v[0] == v[1])
    return (v[0], v[2])


def minus(a):
    return (a[0], a[2], a[1])


def boxplus(a, w):
    need(a[0] == w[0] == w[1] and a[1] == w[2])
    return a


def boxminus(a, b):
    need(a == b)
    return (a[0], a[0], a[1])


def same_left(a, b):
    need(a[0] == b[0])
    return ()


keep = lambda a: a
scal = lambda *a: ()
# name, operand kinds, C++ text, result kind, frames of the result
OPS = [("compose", "RR", "{0} * {1}", "R", compose), ("compose", "TT", "{0} * {1}", "T", compose),
       ("inverse", "R", "inverse({0})", "R", inverse), ("inverse", "T", "inverse({0})", "T", inverse),
       ("rotate", "RP", "{0} * {1}", "P", rotate), ("transform", "TP", "{0} * {1}", "P", transform),
       ("exp", "W", "exp({0})", "R", lambda w: (w[0], w[0])), ("exp", "X", "exp({0})", "T", lambda w: (w[0], w[0])),
       ("log", "R", "log({0})", "W", vec), ("log", "T", "log({0})", "X", vec),
       ("boxplus", "RW", "{0} + {1}", "R", boxplus), ("boxplus", "TX", "{0} + {1}", "T", boxplus),
       ("boxminus", "RR", "{0} - {1}", "W", boxminus), ("boxminus", "TT", "{0} - {1}", "X", boxminus),
       ("rotation", "T", "{0}.rotation()", "R", keep), ("translation", "T", "{0}.translation()", "P", vec),
       ("shift", "OP", "{0} + {1}", "O", lambda o, v: point(vsum(vec(o), v))), ("shiftL", "PO", "{0} + {1}", "O", lambda v, o: point(vsum(v, vec(o)))),
       ("unshift", "OP", "{0} - {1}", "O", lambda o, v: point(vsub(vec(o), v))), ("pdiff", "OO", "{0} - {1}", "P", lambda a, b: vsub(vec(a), vec(b)))]
for k in "PWX":
    OPS += [("sum", k + k, "{0} + {1}", k, vsum), ("diff", k + k, "{0} - {1}", k, vsub), ("minus", k, "-{0}", k, minus),
            ("scale", "S" + k, "{0} * {1}", k, lambda s, a: a), ("scaleR", k + "S", "{0} * {1}", k, lambda a, s: a), ("div", k + "S", "{0} / {1}", k, lambda a, s: a),
            ("scaleNum", k, "2.5 * {0}", k, keep), ("scaleNumR", k, "{0} * 0.5", k, keep), ("divNum", k, "{0} / 4.0", k, keep),
            ("dot", k + k, "dot({0}, {1})", "S", same_left), ("norm", k, "{0}.norm()", "S", scal), ("sqnorm", k, "{0}.squaredNorm()", "S", scal),
            ("normalized", k, "{0}.normalized()", k, keep)]


def framed(leaf, fr, ns):
    if not fr or all(f == "N" for f in fr):
        return leaf
    return "wave::Framed<%s, %s>" % (leaf, ", ".join(ns + f for f in fr))


def flist(fr, ns):
    return "list<%s>" % ", ".join(ns + f for f in fr) if fr and any(f != "N" for f in fr) else "list<>"


# how an operand of a kind and frames is written: name -> (possible, parameters -> text)
def operands(kind, fr, leaf, how, name, ns):
    """(parameter declaration, text, is the result an expression of these frames)"""
    L = framed(leaf, fr, ns)
    un = not fr or all(f == "N" for f in fr)
    if how == "rvalue":
        return "%s &%s" % (L, name), "std::move(%s)" % name
    if how == "cast" and not un:
        return "%s &%s" % (leaf, name), "wave::frame_cast<%s>(%s)" % (", ".join(ns + f for f in fr), name)
    if how == "castcast" and not un:
        return "%s &%s" % (L, name), "wave::frame_cast<%s>(wave::frame_cast<%s>(%s))" % (
            ", ".join(ns + f for f in fr), ", ".join([ns + "Y"] * len(fr)), name)
    if how == "turned" and kind in "RT":
        return "%s &%s" % (framed(leaf, inverse(fr), ns), name), "inverse(%s)" % name
    if how == "turned" and kind in "PWX":
        return "%s &%s" % (framed(leaf, minus(fr), ns), name), "(-%s)" % name
    if how == "constant" and kind in "RT":
        return None, "wave::Identity<%s>{}" % L
    if how == "constant" and kind in "PWX":
        return None, "wave::Zero<%s>{}" % L
    if how == "proxy":
        return "wave::Proxy<%s> &%s" % (L, name), name
    if how == "const":
        return "const %s &%s" % (L, name), name
    return "%s &%s" % (L, name), name


HOW = ["lvalue", "lvalue", "rvalue", "const", "cast", "castcast", "turned", "proxy", "constant"]


def partitions(n):
    def rec(pre, m):
        if len(pre) == n:
            yield pre
            return
        for v in range(m + 1):
            yield from rec(pre + [v], max(m, v + 1))
    for p in rec([], 0):
        yield ["ABCDEFGH"[i] for i in p]
