"""Identity of closed-form terms by evaluation at random points.

Terms extracted by the analysis are built from named atoms with +, -, *, /, powers,
conjugation, modulus, real and imaginary part, and gates on comparisons.  Every atom stands
for an array; it is evaluated as a short tuple of random complex numbers, so that
elementwise operations and reductions (any, all, max) mean what they mean for arrays.
Two algebraic terms agreeing at independent random points are the same function (one that
is not identically zero vanishes on a null set only)."""
import cmath
import math
import random

from .interp import show
from .algebra import NotAlgebraic

WIDTH = 2


class Point:
    def __init__(self, seed, fixed=None, width=WIDTH):
        self.seed, self.width = seed, width
        self.atoms = dict(fixed or {})
        self.memo = {}

    def atom(self, t):
        if t not in self.atoms:
            r = random.Random(repr((t, self.seed)))
            self.atoms[t] = tuple(complex(r.uniform(.3, 1.7) * r.choice((1, -1)), r.uniform(.3, 1.7) * r.choice((1, -1))) for _ in range(self.width))
        return self.atoms[t]

    def vec(self, v):
        return v if isinstance(v, tuple) else (v,) * self.width

    def __call__(self, t):
        k = id(t)
        if k in self.memo and self.memo[k][0] is t:
            return self.memo[k][1]
        v = self.ev(t)
        self.memo[k] = (t, v)
        return v

    def map(self, f, *ts):
        vs = [self.vec(self(t)) for t in ts]
        return tuple(f(*x) for x in zip(*vs))

    def ev(self, t):
        k = t[0]
        if k == "const":
            if isinstance(t[1], (bool, int, float, complex)):
                return self.vec(t[1] if isinstance(t[1], bool) else complex(t[1]))
            raise NotAlgebraic("constant %r" % (t[1],))
        if k == "sym" or (k == "attr" and t[2] not in ("real", "imag") and rooted(t)):
            return self.atom(t)
        if k == "dict" and all(x[0] == "tuple" and len(x[1]) == 1 and x[1][0][0] == "const" for x, v in t[1]):
            # an array written entry by entry, zero elsewhere
            d = {x[1][0][1]: self.vec(self(v))[0] for x, v in t[1]}
            return tuple(d.get(i, 0j) for i in range(self.width))
        if k == "item" and t[2][0] in ("tuple", "const"):
            ix = t[2][1] if t[2][0] == "tuple" else (t[2],)
            if len(ix) == 1 and ix[0][0] == "const" and isinstance(ix[0][1], int):
                return self.vec(self.vec(self(t[1]))[ix[0][1]])
            if not ix:
                return self(t[1])
        if k == "global" and t[1].split(".")[-1] == "pi":
            return self.vec(complex(math.pi))
        if k == "ite":
            c = self.cond(t[1])
            return self(t[2]) if c else self(t[3])
        if k == "bin":
            op = t[1]
            f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "**": power}.get(op)
            if f is None:
                raise NotAlgebraic("operator " + op)
            return self.map(f, t[2], t[3])
        if k == "un" and t[1] in "+-":
            return self.map(lambda a: -a if t[1] == "-" else a, t[2])
        if k == "attr" and t[2] in ("real", "imag"):
            return self.map(lambda a: complex(getattr(a, t[2])), t[1])
        if k == "cmp" or k in ("not", "and", "or"):
            return self.vec(self.cond(t))
        if k == "call":
            f, args = t[1], t[2]
            name = f[1].split(".")[-1].split(":")[-1] if f[0] in ("global", "fn") else None
            if f[0] == "attr":
                if f[1][0] in ("module", "global"):
                    name = f[2]
                else:
                    name, args = f[2], (f[1],) + tuple(args)
            if len(args) == 1:
                a = args[0]
                if name in ("abs", "absolute"):
                    return self.map(lambda x: complex(abs(x)), a)
                if name in ("conjugate", "conj"):
                    return self.map(lambda x: x.conjugate(), a)
                if name in ("abs_sq", "abssq"):
                    return self.map(lambda x: x * x.conjugate(), a)
                if name in ("sqrt", "exp", "cos", "sin", "tan", "log", "cosh", "sinh", "tanh"):
                    return self.map(getattr(cmath, name), a)
                if name in ("arccos", "arcsin", "arctan"):
                    return self.map(getattr(cmath, "a" + name[3:]), a)
                if name in ("atan", "acos", "asin"):
                    return self.map(getattr(cmath, name), a)
                if name in ("angle", "phase"):
                    return self.map(lambda x: complex(cmath.phase(x)), a)
                if name in ("real", "imag"):
                    return self.map(lambda x: complex(getattr(x, name)), a)
                if name in ("max", "amax", "nanmax"):
                    return self.vec(max(self.vec(self(a)), key=lambda x: x.real))
                if name in ("min", "amin"):
                    return self.vec(min(self.vec(self(a)), key=lambda x: x.real))
                if name in ("any", "all"):
                    return self.vec(self.cond(t))
                if name == "square":
                    return self.map(lambda x: x * x, a)
                if name == "reciprocal":
                    return self.map(lambda x: 1 / x, a)
                if name == "negative":
                    return self.map(lambda x: -x, a)
            if args and name in ("asarray", "asanyarray", "array", "complex", "float", "copy", "squeeze", "atleast_1d", "ascontiguousarray"):
                return self(args[0])
            g = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b, "divide": lambda a, b: a / b,
                 "true_divide": lambda a, b: a / b, "power": power, "dot": lambda a, b: a * b, "hypot": lambda a, b: cmath.sqrt(a * a + b * b),
                 "atan2": lambda a, b: complex(math.atan2(a.real, b.real)), "arctan2": lambda a, b: complex(math.atan2(a.real, b.real))}.get(name)
            if g and len(args) == 2:
                return self.map(g, *args)
        raise NotAlgebraic("not a closed form: %s" % show(t)[:100])

    def bools(self, t):
        k = t[0]
        if k == "const":
            return (bool(t[1]),) * self.width
        if k == "cmp":
            if t[1] == "in":
                raise NotAlgebraic("membership: %s" % show(t)[:80])
            f = {"==": lambda a, b: abs(a - b) < 1e-12 * max(1, abs(a)), "<": lambda a, b: a.real < b.real, "<=": lambda a, b: a.real <= b.real}[t[1]]
            return self.map(f, t[2], t[3])
        if k == "not":
            return tuple(not x for x in self.bools(t[1]))
        if k == "call":
            f, args = t[1], t[2]
            name = f[1].split(".")[-1] if f[0] == "global" else f[2] if f[0] == "attr" else None
            a = args[0] if args else f[1]
            if name in ("any", "all") and len(args) <= 1:
                return ({"any": any, "all": all}[name](self.bools(a)),) * self.width
            if name == "isfinite":
                return (True,) * self.width
        if k == "and":
            return (all(self.cond(x) for x in t[1]),) * self.width
        if k == "or":
            return (any(self.cond(x) for x in t[1]),) * self.width
        v = self(t)
        return tuple(bool(x) for x in self.vec(v))

    def cond(self, t):
        b = self.bools(t)
        if len(set(b)) != 1:
            raise NotAlgebraic("array used as a condition: %s" % show(t)[:80])
        return b[0]


def rooted(t):
    """attribute chain of an abstract object"""
    while t[0] == "attr":
        t = t[1]
    return t[0] in ("sym", "const", "self", "param", "inst")


def power(a, b):
    if b == int(b.real) and abs(b.real) < 20:
        return a ** int(b.real)
    return cmath.sqrt(a) if b == .5 else a ** b
