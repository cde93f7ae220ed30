"""C09: beam propagation through paraxial layouts: element matrices, transfer between planes, beam parameters."""
import itertools
import random

from sa import ndvals
from sa.algebra import NotAlgebraic
from sa.evalterm import Point
from sa.interp import C, NONE, SurelyFails, Value, FALSE, TRUE, is_const, show, subst
from sa.loader import AnalysisBroken
from sa.objects import World, Unreadable

BAD = (NotAlgebraic, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, Unreadable, StopIteration, ArithmeticError)
EXPLANATION = (
    "The optical elements, composites, systems and beam parameters of the beam-propagation package are interpreted from source on abstract objects with "
    "symbolic lengths, indices, curvatures and beam parameters.  Layouts of nested, reversed and truncated systems are built for every "
    "relative order of the planes involved; the 2x2 matrix terms each query returns are compared, as identities in the symbols, with the "
    "product of the elementary matrices between the two planes, and each beam readout with its textbook definition.")
ASSUMPTIONS = ["the elementary matrices are the package's own: thin lens [1 0; -1/f 1], mirror [1 0; -2/R 1], spherical interface [1 0; (n1/n2-1)/R n1/n2], free space [1 L/n; 0 1]",
               "Complex behaves as a complex number", "queries are made at single positions inside the layout", "identities are decided at random points of the symbols (wrong with probability zero)"]


class M2(ndvals.Arr):
    """a 2x2 numpy matrix (matrix=True) or array"""

    def __init__(self, data, matrix):
        ndvals.Arr.__init__(self, data)
        self.matrix = matrix

    def __repr__(self):
        return "M2@%x" % id(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)

    def attr(self, it, name):
        if name == "I" and self.matrix:
            return C(M2(ndvals.inverse(self.data), True))
        r = ndvals.Arr.attr(self, it, name)
        return C(M2(r[1].data, self.matrix)) if name == "T" else r

    def binop(self, it, op, other, swapped):
        o = other[1] if other[0] == "const" and isinstance(other[1], ndvals.Arr) else None
        if op in ("*", "@") and o is not None and len(o.shape) == 2:
            matrix = self.matrix or getattr(o, "matrix", False)
            if op == "@" or matrix:
                a, b = (o.data, self.data) if swapped else (self.data, o.data)
                return C(M2(ndvals.einsum("ik,kj->ij", [a, b]), matrix))
        if op == "**" and not swapped and self.matrix:
            if other == C(-1):
                return C(M2(ndvals.inverse(self.data), True))
            if is_const(other) and other[1] in (0, 1, 2):
                m = ((C(1), C(0)), (C(0), C(1)))
                for _ in range(other[1]):
                    m = ndvals.einsum("ik,kj->ij", [m, self.data])
                return C(M2(m, True))
            return None
        r = ndvals.Arr.binop(self, it, op, other, swapped)
        return None if r is None else C(M2(r[1].data, self.matrix)) if len(r[1].shape) == 2 else r

    def unop(self, it, op):
        r = ndvals.Arr.unop(self, it, op)
        return None if r is None else C(M2(r[1].data, self.matrix))

    def method(self, it, name, args, kw):
        if name in ("copy",):
            return C(self)
        if name == "dot" and len(args) == 1:
            return self.binop(it, "@", args[0], False)
        return None


EYE = ((C(1), C(0)), (C(0), C(1)))


class Bunch(Value):
    def __init__(self, **d):
        self.d = d

    def attr(self, it, name):
        return self.d.get(name)

    def item(self, it, key):
        return self.d.get(key[1]) if key[0] == "const" else None


class Length(Value):
    """a configurable quantity with its symbolic value"""

    def __init__(self, val):
        self.val = val

    def attr(self, it, name):
        return self.val if name in ("val", "ref") else None

    def unop(self, it, op):
        return length(("un", op, self.val)) if op in "+-" else None


def length(t):
    return C(Length(t))


class Index(Value):
    """a substrate"""

    def __init__(self, n):
        self.nval = n

    def method(self, it, name, args, kw):
        return self.nval if name == "n" and len(args) == 1 else None


class Quiet(Value):
    """the surrounding tree: accepts anything"""

    def method(self, it, name, args, kw):
        if name == "insert":
            return dict(kw).get("obj", args[0] if args else None)
        return NONE


QUIET = C(Quiet())
ENV, GLASS = ("sym", "n env"), ("sym", "n glass")


def S(name):
    return ("sym", name)


class Lab:
    """one world for one valuation of the symbols (which fixes the order of all planes)"""

    def __init__(self, prog, values=None):
        self.values = dict(values or {})
        self.base = Point(1, {S(k): (complex(v),) for k, v in self.values.items()}, width=1)
        self.prog = prog
        names = [c.name for c in prog.all_classes() if c.qual.startswith("phasor.alm.")]
        self.w = World(prog, objects=[n for n in names if n not in ("TargetIdx",)], exact=True, strict=True, decide=self.decide, order=self.order, recursion=8,
                       calls=self.calls, values=("TargetIdx", "SubstrateEnvironment", "Substrate"))
        w = self.w
        w.it.opts["new_hook"] = self.new_hook
        w.it.opts["isinstance"] = self.isinstance
        self.n = 0

    def points(self):
        """points of the same order region"""
        out = []
        for s in (1, 2):
            r = random.Random(s)
            out.append(Point(s, {S(k): (complex(v * (1 + 1e-4 * r.uniform(-1, 1))),) for k, v in self.values.items()}, width=1))
        return out

    def decide(self, it, cond):
        if cond[0] in ("or", "and"):
            rs = [self.decide(it, c) for c in (cond[1] if isinstance(cond[1][0], tuple) else cond[1:])]
            stop = cond[0] == "or"
            return stop if stop in rs else None if None in rs else not stop
        if cond[0] == "cmp" and cond[1] in ("==", "!=") and any(x[0] in ("sym", "bin", "un") for x in cond[2:]) and any(
                x[0] == "tuple" or is_const(x) and isinstance(x[1], str) for x in cond[2:]):
            return cond[1] == "!="      # a position is no name
        if cond[0] == "cmp" and any(show(x).startswith("len(") and show(x).endswith(".shape)") for x in cond[2:]):
            return Point(1, width=1).cond(subst(cond, {x: C(0) for x in cond[2:] if not is_const(x)}))      # positions are single numbers
        if cond[0] == "cmp" and cond[1] in ("is", "is not", "==", "!=") and NONE in cond[2:] and any(x[0] in ("sym", "bin", "un") for x in cond[2:]):
            return cond[1] in ("is not", "!=")
        try:
            return self.base.cond(cond)
        except NotAlgebraic:
            return None

    def isinstance(self, it, x, cls):
        cls = [c for c in cls[1]] if cls[0] == "tuple" else [cls]
        names = {c[1].split(":")[-1].split(".")[-1] for c in cls if c[0] in ("class", "global")}
        if x[0] == "tuple" and names & {"TargetIdx", "tuple"}:
            return True
        if x[0] in ("sym", "bin", "un") and names <= {"TargetIdx", "str", "tuple", "ComplexBeamParam"}:
            return False
        if is_const(x) and isinstance(x[1], str) and names & {"str"}:
            return True
        return None

    def order(self, t):
        if t[0] in ("sym", "bin", "un"):
            try:
                return self.base(t)[0].real
            except NotAlgebraic:
                return None
        return None

    def calls(self, w, func, args, kw):
        it = w.it
        name = func[1] if func[0] == "global" else "%s.%s" % (func[1][1], func[2]) if func[0] == "attr" and func[1][0] in ("global", "module") else ""
        short = name.split(".")[-1]
        if short in ("matrix", "asmatrix", "mat") and name.startswith("numpy") and args:
            d = ndvals.data_of(it, args[0])
            return None if d is None else C(M2(d, True))
        if name in ("numpy.eye", "numpy.identity") and args[:1] == [C(2)]:
            return C(M2(EYE, False))
        if name in ("numpy.array", "numpy.asarray") and args:
            d = ndvals.data_of(it, args[0])
            if d is None:
                return None
            s = ndvals.shape(d)
            return C(M2(d, False)) if s == (2, 2) else C(ndvals.Arr(d)) if s else args[0]
        if name == "numpy.linalg.inv" and len(args) == 1:
            d = ndvals.data_of(it, args[0])
            return None if d is None else C(M2(ndvals.inverse(d), args[0][1].matrix))
        if name in ("numpy.dot", "numpy.matmul") and len(args) == 2:
            return args[0][1].binop(it, "@", args[1], False)
        if name == "numpy.searchsorted":
            kw = dict(kw)
            d = ndvals.data_of(it, args[0])
            side = kw.get("side", args[2] if len(args) > 2 else C("left"))
            z = self.order(args[1]) if not is_const(args[1]) else args[1][1]
            xs = [self.order(x) if not is_const(x) else x[1] for x in d]
            if any(x is None for x in xs) or z is None:
                return None
            return C(sum(1 for x in xs if x < z or side == C("right") and x == z))
        if short in ("re", "im") and len(args) == 1 and "math" in name:
            return ("attr", args[0], {"re": "real", "im": "imag"}[short])
        if short == "Bunch":
            return C(Bunch(**dict(kw)))
        if short == "print":
            return NONE
        return None

    def new_hook(self, it, qual, args, kw, node):
        name = qual.split(":")[-1]
        if name == "TargetIdx":
            els = it.iter_concrete(args[0]) if args else []
            return None if els is None else ("tuple", tuple(t for t, _, _ in els))
        if name == "Substrate":
            return C(Index(GLASS))
        if name == "Complex":
            if len(args) == 1:
                return args[0]
            return ("bin", "+", args[0], ("bin", "*", C(1j), args[1])) if len(args) == 2 else None
        if qual.startswith("phasor.alm."):
            try:
                mod, cn = qual.split(":")
                ci = self.prog.get_class(mod, cn)
            except AnalysisBroken:
                return None
            if "MatrixAtsBase" in [c.name for c in self.prog.mro(ci)]:
                # children are turned around with the element that makes them
                rev = next((it.store[(t, "env_reversed")] for f in reversed(it.frames) for t in f.locals.values() if t[0] == "inst" and (t, "env_reversed") in it.store), FALSE)
                return self.element(ci, dict(kw), rev == TRUE)
        return None

    # ------------------------------------------------------------ elements
    def element(self, ci, kw, reversed=False):
        """an element placed in the tree with the given configuration"""
        a = {"env_reversed": C(reversed), "root": C(Bunch(env_substrate=C(Index(ENV)))), "parent": QUIET, "building": QUIET, "_internal": QUIET, "ctree": self.w.dict([])}
        for k, v in kw.items():
            if k.endswith("_preferred"):
                k = k[:-10].replace("ROC", "R") + "_m"
            if k[-2:] == "_m":
                if not (v[0] == "const" and isinstance(v[1], Length)):
                    v = length(v)
                a[(k[:-2].replace("R", "ROC") if k[0] == "R" else k[:-2]) + "_preferred"] = v
            a[k] = v
        return self.w.blank(ci, **a)

    def cls(self, name):
        for c in self.prog.all_classes():
            if c.name == name and c.qual.startswith("phasor.alm."):
                return c
        raise AnalysisBroken("phasor.alm class %s is gone" % name)

    def make(self, cls, reversed=False, **kw):
        return self.element(self.cls(cls), kw, reversed)


def mat(t, p):
    if not (t[0] == "const" and isinstance(t[1], ndvals.Arr) and t[1].shape == (2, 2)):
        raise Unreadable("not a matrix: %s" % show(t)[:100])
    return [[p.vec(p(x))[0] for x in row] for row in t[1].data]


def mul(*ms):
    r = [[1, 0], [0, 1]]
    for m in ms:
        r = [[sum(r[i][k] * m[k][j] for k in (0, 1)) for j in (0, 1)] for i in (0, 1)]
    return r


def inv(m):
    d = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return [[m[1][1] / d, -m[0][1] / d], [-m[1][0] / d, m[0][0] / d]]


def mirrored(m):
    """the matrix of a thin element turned around"""
    i = inv(m)
    return [[i[0][0], -i[0][1]], [-i[1][0], i[1][1]]]


def same(a, b):
    return all(abs(a[i][j] - b[i][j]) < 1e-8 * (1 + abs(b[i][j])) for i in (0, 1) for j in (0, 1))


def num(x):
    x = complex(x)
    return "%.5g" % x.real if abs(x.imag) < 1e-12 else "%.5g%+.5gj" % (x.real, x.imag)


def fmt(m):
    return "[%s]" % "; ".join(" ".join(map(num, r)) for r in m)


# ---------------------------------------------------------------- layouts
class Tree(Value):
    """the top of the tree"""

    def __init__(self, lab, root):
        self.lab, self.root = lab, root

    def attr(self, it, name):
        return None if name == "_complete" else it.get_attr(self.root, name)

    def method(self, it, name, args, kw):
        if name == "_complete":
            return NONE
        return it.call(it.get_attr(self.root, name), args, kw, None)


class Layout:
    """spec: nested tuples; objects of the real classes, and the oracle's list of steps"""

    def __init__(self, lab, spec, reversed=False):
        self.lab = lab
        self.objs, self.names = {}, {}
        self.root = lab.make("RootSystem", bool(reversed), env_substrate=C(Index(ENV)), env_wavelength_nm=S("lambda"), loc_m=C(0), name=C("root"))
        self.tree = C(Tree(lab, self.root))
        self.fill(self.root, spec, reversed, ())
        self.spec, self.reversed = spec, reversed

    def fill(self, obj, spec, rev, path):
        """spec = dict(items=[(loc, spec)], left=, right=)"""
        st = self.lab.w.it.store
        st[(obj, "root")] = self.tree
        for side in ("left", "right"):
            st[(obj, "boundary_%s_m" % side)] = length(spec.get(side, NONE))
        kids = []
        for i, (loc, s) in enumerate(spec["items"]):
            kind, a = s[0], s[1:]
            kw = dict(loc_m=loc, name=C(s[1] if kind in ("target", "sys", "proj") else "%s%d" % (kind, i)))
            r = rev
            if kind == "sys":
                r = rev ^ bool(s[2].get("reversed"))
                o = self.lab.make("System", r, **kw)
                self.fill(o, s[2], r, path + (i,))
            elif kind == "lens":
                o = self.lab.make("ThinLens", r, f_m=a[0], **kw)
            elif kind == "abcd":
                o = self.lab.make("ABCDGeneric", r, A=length(a[0]), B=length(a[1]), C=length(a[2]), **kw)
            elif kind == "mirror":
                o = self.lab.make("Mirror", r, R_m=a[0], **kw)
            elif kind == "space":
                o = self.lab.make("Space", r, L_m=a[0], **kw)
            elif kind == "nop":
                o = self.lab.make("NoP", r, **kw)
            elif kind == "plcx":
                o = self.lab.make("PLCX", r, R_m=a[0], L_m=a[1], **kw)
            elif kind == "target":
                q = self.lab.make("ComplexBeamParam", value=a[1], wavelen=S("lambda")) if len(a) > 1 else NONE
                o = self.lab.make("BeamTarget", r, q_raw=q, q_system=NONE, **kw)
            elif kind == "proj":
                o = self.lab.make("BeamTargetProjected", r, target_original=self.names[a[1]], inst_preincarnation=NONE, **kw)
            if kind in ("target", "proj"):
                self.names[s[1]] = o
            st[(o, "root")] = self.tree
            st[(o, "parent")] = obj
            self.objs[path + (i,)] = o
            kids.append(o)
        # children are registered in an order unrelated to their locations
        order = sorted(range(len(kids)), key=lambda i: (i * 7 + 3) % 5)
        st[(obj, "_registry_children")] = self.lab.w.dict([(C("c%d" % i), kids[i]) for i in order])

    # ------------------------------------------------------------ oracle
    def steps(self, p):
        """[(labels, width, matrix)] in the order the beam meets them, at the point p"""
        n = lambda t: p.vec(p(t))[0].real
        env = n(ENV)

        def free(l, idx=None):
            return (None, l, [[1, l / (env if idx is None else idx)], [0, 1]])

        def element(s, rev, path):
            kind, a = s[0], s[1:]
            if kind == "sys":
                out = system(s[2], rev ^ bool(s[2].get("reversed")), path)
            elif kind == "space":
                out = [free(n(a[0]))]
            elif kind == "plcx":
                R, L, g = n(a[0]), n(a[1]), n(GLASS)
                seq = [(None, 0, [[1, 0], [(env / g - 1) / R, env / g]]), free(L, g), (None, 0, [[1, 0], [0, g / env]])]
                out = [(None, w, mirrored(m) if w == 0 else m) for _, w, m in reversed(seq)] if rev else seq
            else:
                m = [[1, 0], [0, 1]]
                if kind == "lens":
                    m = [[1, 0], [-1 / n(a[0]), 1]]
                elif kind == "mirror":
                    m = [[1, 0], [-2 / n(a[0]), 1]]
                elif kind == "abcd":
                    A, B, Cc = (n(x) for x in a)
                    m = [[A, B], [Cc, (1 + B * Cc) / A]]
                    m = mirrored(m) if rev else m
                out = [(None, 0, m)]
            return [(("begin", path), 0, None)] + out + [(("end", path), 0, None)]

        def system(spec, rev, path):
            items = [(n(loc), i, s) for i, (loc, s) in enumerate(spec["items"])]
            items.sort(key=lambda x: x[0])
            parts = [(loc, element(s, rev, path + (i,))) for loc, i, s in items]
            lo, hi = (n(spec[k]) if k in spec else None for k in ("left", "right"))
            parts = [(l, e) for l, e in parts if (lo is None or l >= lo) and (hi is None or l <= hi)]
            start, at = lo if lo is not None else parts[0][0], None
            at = start
            out = []
            for l, e in parts:
                gap = [free(l - at)] if abs(l - at) > 1e-12 else []
                out.append((gap, e))
                at = l + sum(w for _, w, m in e)
            tail = [free(hi - at)] if hi is not None else []
            flat = []
            if not rev:
                for g, e in out:
                    flat += g + e
                return flat + tail
            flat = tail[:]
            for g, e in reversed(out):
                flat += e + g
            return flat

        return system(self.spec, self.reversed, ())

    def planes(self, p):
        """({(side, path): (position, index)}, steps) """
        steps, marks, z = [], {}, 0
        for tag, w, m in self.steps(p):
            if m is None:
                marks[tag] = (z, len(steps))
            else:
                steps.append((z, w, m))
                z += w
        marks["left"], marks["right"] = (0, 0), (z, len(steps))
        return marks, steps


def between(steps, i, j):
    if i <= j:
        return mul(*[m for z, w, m in reversed(steps[i:j])])
    return inv(between(steps, j, i))


def at(steps, z, total):
    """possible transfer matrices from the start to a position (both sides of thin elements there)"""
    out = []
    m = [[1, 0], [0, 1]]
    for z0, w, s in steps:
        if abs(z0 - z) < 1e-9:
            out.append(m)
        elif w and z0 < z < z0 + w - 1e-9:
            f = (z - z0) / w
            out.append(mul([[1, s[0][1] * f], [0, 1]], m))
        m = mul(s, m)
    if abs(total - z) < 1e-9:
        out.append(m)
    return out


# ---------------------------------------------------------------- rules
VALUES = {"n env": 1.13, "n glass": 1.45, "lambda": .9, "f1": .7, "f2": -.43, "f3": 1.9, "z0": 0., "z1": .3125, "z2": .8125, "z3": 1.6875, "z4": 2.3125, "L1": .171875, "L2": .296875,
          "y0": .0, "y1": .046875, "y2": .234375, "y3": .5, "A": 1.3, "B": .4, "Cc": .8, "R": .9, "R2": -1.7, "nf": 1.2, "nt": 1.6, "k1": -.203125, "k2": 2.90625, "t1": .1, "t2": .37, "t3": .71, "t4": 1.13, "t5": 1.51, "t6": 2.07}


BEAM = {"Z": .7, "ZR": .45, "Z2": -.3, "ZR2": 1.2, "W0": .38, "lambda": .9, "theta": .6, "W": .5, "R": 2.1, "gp": 1.3, "a": .8, "b": .35, "c": -.6, "d": 1.1, "L1": .4}


def scenarios():
    """(name, spec): every kind of placement; symbols are ordered as in VALUES"""
    sub = [(S("y0"), ("nop",)), (S("y2"), ("target", "qs", S("q s"))), (S("y1"), ("lens", S("f2"))), (S("y3"), ("nop",))]
    yield "flat", dict(items=[(S("z0"), ("target", "q1", S("q 1"))), (S("z3"), ("target", "q2", S("q 2"))), (S("z1"), ("lens", S("f1"))), (S("z2"), ("lens", S("f2")))])
    for r in (False, True):
        yield "nested%s" % (" reversed" if r else ""), dict(items=[
            (S("z0"), ("target", "q1", S("q 1"))), (S("z1"), ("lens", S("f1"))), (S("z2"), ("sys", "sub", dict(items=sub, reversed=r))), (S("z3"), ("target", "q2", S("q 2")))])
    for r in (False, True):
        for r2 in (False, True):
            yield "twice nested%s%s" % (" reversed" if r else "", " with reversed core" if r2 else ""), dict(items=[
                (S("z0"), ("lens", S("f3"))), (S("z1"), ("sys", "mid", dict(reversed=r, items=[
                    (C(0), ("lens", S("f1"))), (S("L1"), ("sys", "core", dict(items=sub, reversed=r2))), (S("z2"), ("nop",))]))), (S("z4"), ("target", "q2", S("q 2")))])
    for r in (False, True):
        yield "projected%s" % (" from a reversed part" if r else ""), dict(items=[
            (S("z0"), ("lens", S("f1"))), (S("z1"), ("sys", "sub", dict(items=sub, reversed=r))), (S("z3"), ("lens", S("f3"))), (S("z4"), ("proj", "p1", "qs")),
            (S("k2"), ("target", "q2", S("q 2")))])
    yield "blocks", dict(items=[(S("z0"), ("target", "q1", S("q 1"))), (S("z1"), ("plcx", S("R"), S("L1"))), (S("z2"), ("abcd", S("A"), S("B"), S("Cc"))),
                                (S("z3"), ("space", S("L2"))), (S("z4"), ("mirror", S("R2"))), (("bin", "+", S("z3"), S("L2")), ("target", "q2", S("q 2")))])
    yield "coincident", dict(items=[(S("z0"), ("lens", S("f1"))), (S("z1"), ("target", "q1", S("q 1"))), (S("z2"), ("sys", "thin", dict(items=[(C(0), ("lens", S("f2")))]))),
                                    (S("z4"), ("target", "q2", S("q 2")))])
    base = [(S("z0"), ("lens", S("f3"))), (S("z1"), ("target", "q1", S("q 1"))), (S("z2"), ("lens", S("f1"))), (S("z3"), ("target", "q2", S("q 2"))), (S("z4"), ("lens", S("f2")))]
    mid = ("bin", "/", ("bin", "+", S("z0"), S("z1")), C(2))
    far = ("bin", "/", ("bin", "+", S("z3"), S("z4")), C(2))
    for name, b in (("cut on the left", dict(left=mid)), ("cut on the right", dict(right=far)), ("cut on both sides", dict(left=mid, right=far)), ("extended", dict(left=S("k1"), right=S("k2")))):
        yield name, dict(items=base, **b)


def thin(s):
    return s[0] in ("lens", "abcd", "mirror", "nop")


class Check:
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.bad = {}

    def case(self, rule, construct, what, f):
        """f() -> None or an error; one report per construct"""
        try:
            err = f()
        except AnalysisBroken:
            raise
        except SurelyFails as ex:
            err = "it raises %s" % ex
        except BAD as ex:
            import os
            import traceback
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            self.ctx.undecided("%s %s (%s): %s %s" % (rule, construct, what, type(ex).__name__, str(ex)[:120]))
            return
        if err:
            self.bad.setdefault((rule, construct), (what, err))
        else:
            self.ctx.ok(rule, "%s: %s" % (construct, what))

    def report(self):
        for (rule, construct), (what, err) in sorted(self.bad.items()):
            self.ctx.fail(rule, construct, "phasor/alm", "%s: %s" % (what, err))

    # ------------------------------------------------------------ elements
    def elements(self):
        env = VALUES["n env"]
        ix = lambda n: C(Index(S(n)))

        def lens(n):
            return lambda g: [[1, 0], [-1 / g(n), 1]]
        cases = [
            ("Space", {"L_m": S("L1")}, lambda g: [[1, g("L1") / g("n env")], [0, 1]]),
            ("ThinLens", {"f_m": S("f1")}, lambda g: [[1, 0], [-1 / g("f1"), 1]]),
            ("Mirror", {"R_m": S("R")}, lambda g: [[1, 0], [-2 / g("R"), 1]]),
            ("Mirror", {"R_m": NONE}, lambda g: [[1, 0], [0, 1]]),
            ("NoP", {}, lambda g: [[1, 0], [0, 1]]),
            ("LensInterface", {"R_m": S("R"), "substrate_from": ix("nf"), "substrate_to": ix("nt")}, lambda g: [[1, 0], [(g("nf") / g("nt") - 1) / g("R"), g("nf") / g("nt")]]),
            ("LensInterface", {"R_m": NONE, "substrate_from": ix("nf"), "substrate_to": ix("nt")}, lambda g: [[1, 0], [0, g("nf") / g("nt")]]),
            ("ABCDGeneric", {"A": length(S("A")), "B": length(S("B")), "C": length(S("Cc"))}, lambda g: [[g("A"), g("B")], [g("Cc"), (1 + g("B") * g("Cc")) / g("A")]]),
            ("PLCX", {"R_m": S("R"), "L_m": S("L1")}, lambda g: mul(iface(g("n glass"), g("n env")), [[1, g("L1") / g("n glass")], [0, 1]], iface(g("n env"), g("n glass"), g("R")))),
            ("CXCX", {"R1_m": S("R"), "R2_m": S("R2"), "L_m": S("L1")},
             lambda g: mul(iface(g("n glass"), g("n env"), -g("R2")), [[1, g("L1") / g("n glass")], [0, 1]], iface(g("n env"), g("n glass"), g("R")))),
            ("PLCXMirror", {"R_m": S("R"), "L_m": S("L1")},
             lambda g: mul(iface(g("n glass"), g("n env")), [[1, g("L1") / g("n glass")], [0, 1]], [[1, 0], [-2 / g("R"), 1]],
                           [[1, g("L1") / g("n glass")], [0, 1]], iface(g("n env"), g("n glass")))),
        ]
        for cls, kw, want in cases:
            flat = "" if kw.get("R_m") != NONE else " (flat)"
            for rev in (False, True):
                lab = Lab(self.prog, VALUES)
                box = []

                def build():
                    if not box:
                        box.append(lab.make(cls, rev, **kw))
                    return box[0]

                def matrix(name, expect):
                    t = lab.w.attr(build(), name)
                    for p in lab.points():
                        g = lambda n: p.vec(p(S(n)))[0].real
                        w = expect(mirrored(want(g)) if rev else want(g))
                        m = mat(t, p)
                        if not same(m, w):
                            return "%s is %s instead of %s" % (name, fmt(m), fmt(w))
                name = cls + flat
                self.case("element", name, "turned around" if rev else "as it stands", lambda: matrix("matrix", lambda m: m))
                self.case("inverse", name, "turned around" if rev else "as it stands", lambda: matrix("matrix_inv", inv))
        # a plane-parallel plate
        lab = Lab(self.prog, VALUES)

        def plate():
            o = lab.make("PLCX", False, R_m=NONE, L_m=S("L1"))
            t = lab.w.attr(o, "matrix")
            for p in lab.points():
                g = lambda n: p.vec(p(S(n)))[0].real
                m, w = mat(t, p), [[1, g("L1") / g("n glass")], [0, 1]]
                env = [[1, g("L1") / g("n glass") * g("n env")], [0, 1]]
                if not same(m, w) and not same(m, env):
                    return "a plane plate is %s, free space of length L/n is %s" % (fmt(m), fmt(w))
        self.case("plate", "plane-parallel plate of glass", "PLCX with flat faces", plate)

    def helpers(self):
        lab = Lab(self.prog, dict(VALUES, dL=.07, q=2.3))
        w = lab.w
        mod = "phasor.alm.utils"
        cases = [("matrix_space", (S("L1"),), lambda g: [[1, g("L1")], [0, 1]]), ("matrix_focus", (S("f1"),), lambda g: [[1, 0], [-1 / g("f1"), 1]]),
                 ("matrix_focus", (NONE,), lambda g: [[1, 0], [0, 1]]),
                 ("matrix_focus", (S("f1"), S("dL")), lambda g: mul([[1, g("dL")], [0, 1]], [[1, 0], [-1 / g("f1"), 1]], [[1, -g("dL")], [0, 1]]))]
        for name, args, want in cases:
            def f():
                t = w.func(mod, name, *args)
                for p in lab.points():
                    m, x = mat(t, p), want(lambda n: p.vec(p(S(n)))[0].real)
                    if not same(m, x):
                        return "it is %s instead of %s" % (fmt(m), fmt(x))
            self.case("element", name, "%d arguments" % len(args), f)

    # ------------------------------------------------------------ beam parameters
    def beams(self):
        lab = Lab(self.prog, BEAM)
        w, it = lab.w, lab.w.it
        cls = ("class", lab.cls("ComplexBeamParam").qual)
        pi = 3.141592653589793

        def made(name, *args):
            return (it.call(it.get_attr(cls, name), [S(a) for a in args], [("wavelen", S("lambda")), ("gouy_phasor", S("gp"))], None))

        def agree(f):
            """f(get) -> [(what, term, number)]"""
            err = None
            for p in lab.points():
                g = lambda n: p.vec(p(S(n)))[0].real
                for what, t, want in f(g):
                    got = p.vec(p(t))[0]
                    if abs(got - want) > 1e-8 * (1 + abs(want)):
                        err = "%s is %s instead of %s" % (what, num(got), num(want))
            return err

        def readouts(q):
            return {n: w.attr(q, n) for n in ("W0", "Z", "ZR", "W", "R", "R_inv", "divergence_rad", "k", "value", "wavelen", "gouy_phasor")}

        def textbook(z, zr, lam):
            w0 = (lam * zr / pi) ** .5
            return {"W0": w0, "Z": z, "ZR": zr, "W": w0 * (1 + (z / zr) ** 2) ** .5, "R": z * (1 + (zr / z) ** 2), "R_inv": z / (z * z + zr * zr),
                    "divergence_rad": 2 * lam / pi / w0, "k": 2 * pi / lam, "value": z + 1j * zr, "wavelen": lam}
        forms = [("from_Z_ZR", ("Z", "ZR"), lambda g: (g("Z"), g("ZR"))),
                 ("from_Z_W0", ("Z", "W0"), lambda g: (g("Z"), pi * g("W0") ** 2 / g("lambda"))),
                 ("from_dRad_Z", ("theta", "Z"), lambda g: (g("Z"), pi * (2 * g("lambda") / pi / g("theta")) ** 2 / g("lambda"))),
                 ("from_W_R", ("W", "R"), lambda g: (lambda q: (q.real, q.imag))(1 / (1 / g("R") - 1j * g("lambda") / pi / g("W") ** 2)))]
        for name, args, want in forms:
            def readout():
                q = made(name, *args)
                r = readouts(q)
                return agree(lambda g: [("%s of a beam made by %s" % (k, name), r[k], v) for k, v in textbook(*want(g), g("lambda")).items()]
                             + [("the Gouy phasor", r["gouy_phasor"], p_gp(g))])
            p_gp = lambda g: g("gp")
            self.case("parameter", "beam parameter by %s" % name, "its readouts", readout)

        def waist():
            q = (it.call(it.get_attr(cls, "from_W_R"), [S("W"), C(0)], [("wavelen", S("lambda"))], None))
            return agree(lambda g: [("the parameter of a beam at its waist", w.attr(q, "value"), 1j * pi * g("W") ** 2 / g("lambda"))])
        self.case("parameter", "beam parameter by from_W_R", "at a waist", waist)

        def default():
            q = (it.call(it.get_attr(cls, "from_Z_ZR"), [S("Z"), S("ZR")], [], None))
            return agree(lambda g: [("the default wavelength", w.attr(q, "wavelen"), 1.064e-6), ("the default Gouy phasor", w.attr(q, "gouy_phasor"), 1)])
        self.case("parameter", "beam parameter", "defaults", default)
        q0 = made("from_Z_ZR", "Z", "ZR")
        mats = [("of a general element", M2(((S("a"), S("b")), (S("c"), S("d"))), True), lambda g: [[g(x) for x in "ab"], [g(x) for x in "cd"]])]

        def law(name, q, m):
            def f(g):
                (a, b), (c, d) = m(g)
                z = g("Z") + 1j * g("ZR")
                ph = (a + b / z).conjugate()
                gp = w.attr(q, "gouy_phasor")
                return [("the parameter %s" % name, w.attr(q, "value"), (a * z + b) / (c * z + d)), ("the wavelength %s" % name, w.attr(q, "wavelen"), g("lambda") * (a * d - b * c)),
                        ("the direction of the Gouy phasor %s" % name, ("bin", "/", gp, ("call", ("global", "builtins.abs"), (gp,), ())), ph / abs(ph) * (1 if g("gp") > 0 else -1))]
            return lambda: agree(f)
        for name, m, f in mats:
            self.case("propagation", "propagation through a matrix", name, law("behind an element", (w.call(q0, "propagate_matrix", C(m))), f))
        self.case("propagation", "propagation over a distance", "free space", law("after free space", (w.call(q0, "propagate_distance", S("L1"))), lambda g: [[1, g("L1")], [0, 1]]))

        def back():
            q = (w.call(q0, "reversed"))
            return agree(lambda g: [("the parameter of the reversed beam", w.attr(q, "value"), -g("Z") + 1j * g("ZR")), ("its wavelength", w.attr(q, "wavelen"), g("lambda")),
                                    ("its Gouy phasor", w.attr(q, "gouy_phasor"), g("gp"))])
        self.case("parameter", "reversed beam", "its parameters", back)

        def overlap():
            q1 = made("from_Z_ZR", "Z2", "ZR2")
            t, u = w.call(q0, "overlap_with", q1), w.call(q1, "overlap_with", q0)
            size = lambda x: ("call", ("global", "builtins.abs"), (x,), ())
            want = lambda g: 2 * (g("ZR") * g("ZR2")) ** .5 / abs(complex(g("Z"), -g("ZR")) - complex(g("Z2"), g("ZR2")))
            own = w.call(q0, "overlap_with", q0)
            return agree(lambda g: [("the overlap of two beams", size(t), want(g)), ("the overlap the other way", size(u), want(g)), ("the overlap of a beam with itself", own, 1)])
        self.case("overlap", "overlap of two beam parameters", "modulus", overlap)

        # eigenmode of a stable round trip
        def eigen():
            lab = Lab(self.prog, dict(BEAM, a=.3, b=1.7, c=-.4, d=(1 + 1.7 * -.4) / .3))
            det = ("bin", "/", ("bin", "+", C(1), ("bin", "*", S("b"), S("c"))), S("a"))
            for sign in (1, -1):
                b, c = (S("b"), S("c")) if sign > 0 else (("un", "-", S("b")), ("un", "-", S("c")))
                t = lab.w.func("phasor.alm.utils", "eigen_q", C(M2(((S("a"), b), (c, det)), True)))
                for p in lab.points():
                    q = p.vec(p(t))[0]
                    A, B, Cc, D = (p.vec(p(x))[0].real for x in (S("a"), b, c, det))
                    if abs((A * q + B) / (Cc * q + D) - q) > 1e-7 * (1 + abs(q)):
                        return "the eigenmode %s of %s becomes %s after a round trip" % (num(q), fmt([[A, B], [Cc, D]]), num((A * q + B) / (Cc * q + D)))
                    if not q.imag > 0:
                        return "the eigenmode %s does not decay away from the axis" % num(q)
        self.case("eigenmode", "eigenmode of a round trip", "stable", eigen)

        def target(kind):
            def f():
                lab = Lab(self.prog, dict(BEAM, a=.3, b=1.7, c=-.4))
                for rev in (False, True):
                    root = C(Bunch(env_substrate=C(Index(ENV)), env_wavelength_nm=S("lambda")))
                    if kind == "cavity":
                        det = ("bin", "/", ("bin", "+", C(1), ("bin", "*", S("b"), S("c"))), S("a"))
                        cav = C(Bunch(matrix=C(M2(((S("a"), S("b")), (S("c"), det)), True))))
                        o = lab.make("BeamTarget", rev, q_raw=NONE, q_system=cav, _check_q=NONE)
                    else:
                        q = lab.w.new(lab.cls("ComplexBeamParam"), S("q")) if kind == "object" else S("q")
                        o = lab.make("BeamTarget", rev, q_raw=q, q_system=NONE)
                    lab.w.it.store[(o, "root")] = root
                    b = lab.w.attr(o, "beam_q")
                    for p in lab.points():
                        p.atoms[S("q")] = (complex(.3, 1.9),)
                        q, lam = p.vec(p(lab.w.attr(b, "value")))[0], p.vec(p(lab.w.attr(b, "wavelen")))[0]
                        if abs(lam - p.vec(p(S("lambda")))[0] * 1e-9) > 1e-15:
                            return "its wavelength is %s nm for %s nm" % (num(lam * 1e9), num(p.vec(p(S("lambda")))[0]))
                        if kind == "cavity":
                            A, B, Cc = (p.vec(p(S(x)))[0].real for x in "abc")
                            D = (1 + B * Cc) / A
                            if abs((A * q + B) / (Cc * q + D) - q) > 1e-7 or q.imag < 0:
                                return "the beam %s of a cavity is not its eigenmode" % num(q)
                        else:
                            want = complex(-.3 if rev else .3, 1.9)
                            if abs(q - want) > 1e-9:
                                return "the beam %s is read as %s where the layout is %s" % (num(complex(.3, 1.9)), num(q), "reversed" if rev else "not reversed")
            return f
        for kind in ("number", "object", "cavity"):
            self.case("target", "beam of a target", "given as a %s" % kind, target(kind))

    # ------------------------------------------------------------ layouts
    def layouts(self):
        for name, spec in scenarios():
            for rev in (False, True):
                self.layout(name, spec, rev)

    def layout(self, name, spec, rev):
        lab = Lab(self.prog, VALUES)
        what = name + (", seen reversed" if rev else "")
        try:
            lay = Layout(lab, spec, rev)
            pts = [(p,) + lay.planes(p) for p in lab.points()]
            names = {}
            for k, v, _ in lab.w.entries(lab.w.call(lay.root, "system_data_targets", C("q_target"))):
                names[v[1]] = k
        except SurelyFails as ex:
            self.bad.setdefault(("layout", name.split(" ")[0]), (what, "it raises %s" % ex))
            return
        except BAD as ex:
            import os
            import traceback
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            self.ctx.undecided("layout %s: %s %s" % (what, type(ex).__name__, str(ex)[:120]))
            return
        w = lab.w
        # the planes of the layout:  name -> (target index, mark)
        planes = {"left": (("tuple", (C("left"),)), "left"), "right": (("tuple", (C("right"),)), "right")}
        wants = {}

        def collect(sp, path):
            for i, (loc, s) in enumerate(sp["items"]):
                if (("begin", path + (i,))) not in pts[0][1]:
                    continue
                if s[0] in ("target", "proj"):
                    wants[s[1]] = ("begin", path + (i,))
                elif s[0] == "sys":
                    collect(s[2], path + (i,))
                if s[0] not in ("target", "proj", "nop"):
                    for side, mark in (("left", "begin"), ("right", "end")):
                        planes["%s of %s at %s" % (side, s[0], "".join(map(str, path + (i,))))] = (lay.objs[path + (i,)], (mark, path + (i,)))
        collect(spec, ())
        self.case("targets", "targets of a layout", what, lambda: None if set(names) == set(wants) else "%s are found, %s are there" % (sorted(names), sorted(wants)))
        for n, mark in wants.items():
            if n in names:
                planes[n] = (names[n], mark)
        tidx = {}
        for pn, (o, mark) in planes.items():
            if o[0] == "inst":
                def find():
                    tidx[pn] = w.call(o, "as_target", C(pn.split(" ")[0]))
                    return None if tidx[pn][0] == "tuple" else "it is %s" % show(tidx[pn])[:60]
                self.case("targets", "plane of an object", "%s, %s" % (what, pn), find)
            else:
                tidx[pn] = o
        total = [m["right"][0] for p, m, st in pts]

        def position(pn):
            t = w.call(lay.root, "target_pos", tidx[pn])
            for p, marks, steps in pts:
                z, want = p.vec(p(t))[0].real, marks[planes[pn][1]][0]
                if abs(z - want) > 1e-9:
                    return "%s is at %.6g instead of %.6g" % (pn, z, want)

        def transfer(a, b):
            t = w.call(lay.root, "matrix_between", tidx[a], tidx[b])
            for p, marks, steps in pts:
                m, want = mat(t, p), between(steps, marks[planes[a][1]][1], marks[planes[b][1]][1])
                if not same(m, want):
                    return "from %s to %s it is %s instead of %s" % (a, b, fmt(m), fmt(want))

        def reach(a, z):
            t = w.call(lay.root, "matrix_target_to_z_single", tidx[a], z)
            for i, (p, marks, steps) in enumerate(pts):
                zv = p.vec(p(z))[0].real
                m = mat(t, p)
                back = inv(between(steps, 0, marks[planes[a][1]][1]))
                ok = [mul(x, back) for x in at(steps, zv, total[i])]
                if not ok:
                    return None
                if not any(same(m, x) for x in ok):
                    return "from %s to z = %.4g it is %s instead of %s" % (a, zv, fmt(m), fmt(ok[0]))
        for pn in tidx:
            self.case("position", "position of a plane", what, lambda: position(pn))
        for a in tidx:
            for b in tidx:
                self.case("between", "transfer between planes", what, lambda: transfer(a, b))
        marks = pts[0][1]
        ends = [S("t%d" % k) for k in range(1, 7)]
        for a in tidx:
            for z in ends:
                if 0 < lab.base.vec(lab.base(z))[0].real < total[0]:
                    self.case("at", "transfer to a position", what, lambda: reach(a, z))
            for b in planes:
                if marks[planes[b][1]][0] <= total[0] and b in tidx:
                    def exact():
                        return reach(a, w.call(lay.root, "target_pos", tidx[b]))
                    self.case("at", "transfer to the position of a plane", what, exact)
        self.case("inverse", "layout", what, lambda: self.inverse(lab, lay, pts))
        self.measure(lab, lay, pts, what, {n: planes[n] for n in wants if n in planes}, tidx, spec)

    def inverse(self, lab, lay, pts):
        t, u = lab.w.attr(lay.root, "matrix"), lab.w.attr(lay.root, "matrix_inv")
        for p, marks, steps in pts:
            want = between(steps, 0, len(steps))
            if not same(mat(t, p), want):
                return "the whole layout is %s instead of %s" % (fmt(mat(t, p)), fmt(want))
            if not same(mat(u, p), inv(want)):
                return "the inverse of the layout is %s instead of %s" % (fmt(mat(u, p)), fmt(inv(want)))

    # ------------------------------------------------------------ measurements
    def measure(self, lab, lay, pts, what, targets, tidx, spec):
        w = lab.w
        meas = lab.w.blank(lab.cls("Measurements"), layout=lay.root)
        revs, projected = {}, {}

        def walk(sp, rev):
            for loc, s in sp["items"]:
                if s[0] == "sys":
                    walk(s[2], rev ^ bool(s[2].get("reversed")))
                elif s[0] == "target":
                    revs[s[1]] = (rev, s[2])
                elif s[0] == "proj":
                    projected[s[1]] = s[2]
        walk(spec, lay.reversed)

        def source(n, p):
            if n in projected:
                marks, steps = next((m, st) for x, m, st in pts if x is p)
                return propagated(between(steps, marks[targets[projected[n]][1]][1], marks[targets[n][1]][1]), source(projected[n], p))
            v = p.vec(p(revs[n][1]))[0]
            v = complex(v.real, abs(v.imag))
            return -v.conjugate() if revs[n][0] else v

        def fixed(p):
            # beam parameters lie in the upper half plane
            for n in revs:
                t = revs[n][1]
                v = p.atom(t)[0]
                p.atoms[t] = (complex(v.real, abs(v.imag)),)

        def value(t, p):
            return p.vec(p(t))[0]

        def propagated(m, q):
            return (m[0][0] * q + m[0][1]) / (m[1][0] * q + m[1][1])
        for p, _, _ in pts:
            fixed(p)
        for a in targets:
            for b in tidx:
                def carried():
                    t = w.attr(w.call(meas, "target_q", C(b) if b in targets else tidx[b], C(a)), "value")
                    for p, marks, steps in pts:
                        want = propagated(between(steps, marks[targets[a][1]][1], marks[self.mark(b, targets, tidx, lay)][1]), source(a, p))
                        if abs(value(t, p) - want) > 1e-8 * (1 + abs(want)):
                            return "the beam of %s at %s is %s instead of %s" % (a, b, num(value(t, p)), num(want))
                if b in targets or b in ("left", "right"):
                    self.case("beam", "beam of a target seen at another plane", what, carried)
            z = S("t4")

            def seen():
                t = w.attr(w.call(meas, "q_target_z", z, C(a)), "value")
                for i, (p, marks, steps) in enumerate(pts):
                    zv = p.vec(p(z))[0].real
                    back = inv(between(steps, 0, marks[targets[a][1]][1]))
                    wants = [propagated(mul(x, back), source(a, p)) for x in at(steps, zv, marks["right"][0])]
                    if wants and not any(abs(value(t, p) - x) < 1e-8 * (1 + abs(x)) for x in wants):
                        return "the beam of %s at z = %.4g is %s instead of %s" % (a, zv, num(value(t, p)), num(wants[0]))
            self.case("beam", "beam of a target at a position", what, seen)
            for b in targets:
                def olap():
                    t = w.call(meas, "overlap", C(a), C(b))
                    for p, marks, steps in pts:
                        m = between(steps, marks[targets[a][1]][1], marks[targets[b][1]][1])
                        if abs(m[0][0] * m[1][1] - m[0][1] * m[1][0] - 1) > 1e-6:
                            return None
                        q, r = propagated(m, source(a, p)), source(b, p)
                        want = 2 * (q.imag * r.imag) ** .5 / abs(r.conjugate() - q)
                        got = abs(value(t, p))
                        if abs(got - want) > 1e-8:
                            return "the overlap of %s carried to %s is %.6g instead of %.6g" % (a, b, got, want)
                self.case("overlap", "overlap of two targets", what, olap)

                for c in targets:
                    def gouy():
                        t = w.call(meas, "relative_gouy_phasor", C(a), C(b), C(c))
                        for p, marks, steps in pts:
                            ia, ib, ic = (marks[targets[x][1]][1] for x in (a, b, c))
                            q = propagated(between(steps, ic, ia), source(c, p))
                            m = between(steps, ia, ib)
                            want = (m[0][0] + m[0][1] / q).conjugate()
                            want /= abs(want)
                            got = value(t, p)
                            if abs(got - want) > 1e-8:
                                return "the Gouy phasor of the beam of %s from %s to %s is %s instead of %s" % (c, a, b, num(got), num(want))
                    self.case("gouy", "Gouy phase accumulated between two targets", what, gouy)

        self.positions(lab, lay, pts, what, targets, tidx, meas, source, propagated, value)

    def positions(self, lab, lay, pts, what, targets, tidx, meas, source, propagated, value):
        """the same questions asked with positions, and the listing of the targets"""
        w = lab.w
        total = pts[0][1]["right"][0]
        za, zb = S("t2"), S("t5")
        if not all(0 < lab.base.vec(lab.base(z))[0].real < total for z in (za, zb)):
            return

        def to(p, marks, steps, z):
            zv = p.vec(p(z))[0].real if z not in targets else None
            return at(steps, zv, marks["right"][0]) if zv is not None else [between(steps, 0, marks[targets[z][1]][1])]

        def agreed(what, t, wants, p):
            got = value(t, p)
            if not any(abs(got - x) < 1e-8 * (1 + abs(x)) for x in wants):
                return "%s is %s instead of %s" % (what, num(got), num(wants[0]))
        for a in targets:
            def beam():
                t = w.attr(w.call(meas, "target_q", za, C(a)), "value")
                for p, marks, steps in pts:
                    back = inv(between(steps, 0, marks[targets[a][1]][1]))
                    err = agreed("the beam of %s at a position" % a, t, [propagated(mul(x, back), source(a, p)) for x in to(p, marks, steps, za)], p)
                    if err:
                        return err
            self.case("beam", "beam of a target at a position", what, beam)

            def carrier():
                t = w.call(meas, "mat_target_z", C(a), zb)
                for p, marks, steps in pts:
                    back = inv(between(steps, 0, marks[targets[a][1]][1]))
                    if not any(same(mat(t, p), mul(x, back)) for x in to(p, marks, steps, zb)):
                        return "from %s to a position it is %s" % (a, fmt(mat(t, p)))
            self.case("at", "transfer from a target to a position", what, carrier)
            for b in targets:
                def pair():
                    t = w.call(meas, "mat_target_between", C(a), C(b))
                    for p, marks, steps in pts:
                        want = between(steps, marks[targets[a][1]][1], marks[targets[b][1]][1])
                        if not same(mat(t, p), want):
                            return "from %s to %s it is %s instead of %s" % (a, b, fmt(mat(t, p)), fmt(want))
                self.case("between", "transfer between named targets", what, pair)
            for x, y in ((za, zb), (zb, za), (a, zb), (zb, a)):
                def gouy():
                    t = w.call(meas, "relative_gouy_phasor", C(x) if x in targets else x, C(y) if y in targets else y, C(a))
                    for p, marks, steps in pts:
                        back = inv(between(steps, 0, marks[targets[a][1]][1]))
                        wants = []
                        for mx in to(p, marks, steps, x):
                            for my in to(p, marks, steps, y):
                                q = propagated(mul(mx, back), source(a, p))
                                m = mul(my, inv(mx))
                                v = (m[0][0] + m[0][1] / q).conjugate()
                                wants.append(v / abs(v))
                        err = agreed("the Gouy phasor between positions", t, wants, p)
                        if err:
                            return err
                self.case("gouy", "Gouy phase accumulated between positions", what, gouy)

            def where():
                t = w.call(meas, "target_z", C(a))
                for p, marks, steps in pts:
                    if abs(value(t, p) - marks[targets[a][1]][0]) > 1e-9:
                        return "%s is found at %s instead of %s" % (a, num(value(t, p)), num(marks[targets[a][1]][0]))
            self.case("position", "position of a named target", what, where)

        def listing():
            b = w.attr(meas, "beam_targets")
            names = [x[1] for x in w.elems(w.it.get_attr(b, "tname"))]
            zs = [x for x in w.elems(w.it.get_attr(b, "z"))]
            for p, marks, steps in pts:
                want = sorted((marks[m][0], n) for n, (_, m) in targets.items())
                if names != [n for z, n in want] or any(abs(value(t, p) - z) > 1e-9 for t, (z, n) in zip(zs, want)):
                    return "they are listed as %s instead of %s" % (names, [n for z, n in want])
        self.case("targets", "targets in the order of the beam", what, listing)

    def mark(self, b, targets, tidx, lay):
        return targets[b][1] if b in targets else b


def iface(n1, n2, R=None):
    return [[1, 0], [(n1 / n2 - 1) / R if R is not None else 0, n1 / n2]]


def run(ctx):
    c = Check(ctx, ctx.prog)
    c.elements()
    c.helpers()
    c.beams()
    c.layouts()
    c.report()
    ctx.assumptions = ASSUMPTIONS
