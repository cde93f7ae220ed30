"""Algebraic normal forms of the value terms computed by interp.py.

A value becomes a quotient of two Laurent polynomials with rational coefficients over
opaque atoms.  i, roots, exp / sin / cos and conj are interpreted, so two expressions are
compared by what they compute, not by how they are written.  Nothing is evaluated
numerically and no value of phasor is ever sampled."""
from fractions import Fraction
import itertools

from .interp import C, NONE, walk, contains, neg, mk_and, mk_or, subst, show

ONE = ()
I = ("i",)


class NotAlgebraic(Exception):
    pass


# ------------------------------------------------------------------ polynomials
# poly: dict monomial -> Fraction; monomial: tuple of (atom, Fraction exponent), sorted by repr
def _rep(a, cache={}):
    r = cache.get(a)
    if r is None:
        r = cache[a] = repr(a)
    return r


def mono(d):
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: _rep(x[0])))


EIPI = ("exp", mono({I: Fraction(1), ("sym", "pi"): Fraction(1)}))


def p_const(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, s):
    return {m: c * s for m, c in a.items()} if s else {}


def m_mul(m1, m2):
    """product of monomials -> (coefficient, monomial)"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    k = 1
    if I in d:
        e = d[I]
        if e.denominator == 1:
            e = int(e) % 4
            if e >= 2:
                k, e = -1, e - 2
            if e:
                d[I] = Fraction(1)
            else:
                del d[I]
    if EIPI in d:
        # exp(i*pi)^e: integer and half-integer parts are exact, the rest stays in (-1/2, 1/2)
        e = d.pop(EIPI)
        q = round(e * 2)
        r = e - Fraction(q, 2)
        if r:
            d[EIPI] = r
        if q % 4:
            k2, m = m_mul(mono(d), ((I, Fraction(q % 4)),))
            return k * k2, m
    return k, mono(d)


# products of terms left for the class under analysis: a deterministic bound on the effort
BUDGET = [0]


def new_budget(n=500000):
    BUDGET[0] = n


new_budget()


def p_mul(a, b):
    BUDGET[0] -= len(a) * len(b)
    if BUDGET[0] < 0:
        raise NotAlgebraic("expression too large")
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            k, m = m_mul(m1, m2)
            v = r.get(m, 0) + k * c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return reduce_roots(r)


def reduce_roots(p):
    """('root', frozenpoly)^2 -> the polynomial itself"""
    for m in p:
        for a, e in m:
            if a[0] == "root" and e >= 2:
                break
        else:
            continue
        break
    else:
        return p
    out = {}
    for m, c in p.items():
        rest = {}
        fac = p_const(c)
        for a, e in m:
            if a[0] == "root" and e >= 2:
                n = int(e // 2)
                for _ in range(n):
                    fac = p_mul(fac, dict(a[1]))
                if e - 2 * n:
                    rest[a] = e - 2 * n
            else:
                rest[a] = e
        out = p_add(out, p_mul(fac, {mono(rest): Fraction(1)}))
    return out


def freeze(p):
    return tuple(sorted(p.items(), key=repr))


# ------------------------------------------------------------------ quotients
class R:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        d = d if d is not None else {ONE: Fraction(1)}
        if not d:
            raise NotAlgebraic("division by zero")
        if not n:
            d = {ONE: Fraction(1)}
        elif len(d) == 1:
            # a monomial denominator folds into the numerator (Laurent), roots excepted
            (m, c), = d.items()
            inv = {}
            keep = {}
            ip = False
            for a, e in m:
                if a == I:
                    ip = True
                elif a[0] == "root":
                    keep[a] = e
                else:
                    inv[a] = -e
            k = Fraction(1) / c
            f = {mono(inv): k}
            if ip:
                f = p_mul(f, {((I, Fraction(1)),): Fraction(-1)})
            if keep:
                # 1/sqrt(p) = sqrt(p)/p
                dd = {ONE: Fraction(1)}
                for a, e in keep.items():
                    f = p_mul(f, {((a, Fraction(1)),): Fraction(1)})
                    for _ in range(int((e + 1) // 2)):
                        dd = p_mul(dd, dict(a[1]))
                    if int(e) % 2 == 0:
                        # even power cannot occur (reduced), kept for completeness
                        raise NotAlgebraic("root power")
                n = p_mul(n, f)
                if len(dd) == 1:
                    r = R(n, dd)
                    n, d = r.n, r.d
                else:
                    d = dd
            else:
                n = p_mul(n, f)
                d = {ONE: Fraction(1)}
        self.n = n
        self.d = d

    def __add__(self, o):
        if self.d == o.d:
            return R(p_add(self.n, o.n), self.d)
        return R(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d))

    def __sub__(self, o):
        return self + (-o)

    def __neg__(self):
        return R(p_scale(self.n, -1), self.d)

    def __mul__(self, o):
        return R(p_mul(self.n, o.n), p_mul(self.d, o.d))

    def __truediv__(self, o):
        return R(p_mul(self.n, o.d), p_mul(self.d, o.n))

    def is_zero(self):
        return not self.n

    def __eq__(self, o):
        if isinstance(o, R) and self.n == o.n and self.d == o.d:
            return True
        return isinstance(o, R) and not p_add(p_mul(self.n, o.d), p_mul(o.n, self.d), -1)

    def __hash__(self):
        return 0

    def const(self):
        """Fraction value when constant, else None"""
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and len(self.d) == 1 and ONE in self.n and ONE in self.d:
            return self.n[ONE] / self.d[ONE]
        return None

    def frozen(self):
        """canonical for polynomial values; quotients are scaled to a fixed leading coefficient"""
        d = freeze(self.d)
        k = d[0][1]
        return (freeze(p_scale(self.n, 1 / k)), freeze(p_scale(self.d, 1 / k)))

    def atoms(self):
        s = set()
        for p in (self.n, self.d):
            for m in p:
                for a, e in m:
                    s.add(a)
                    if a[0] == "root":
                        s |= R(dict(a[1])).atoms()
                    if a[0] == "exp":
                        for b, _ in a[1]:
                            s.add(b)
        return s

    def __repr__(self):
        def sp(p):
            if not p:
                return "0"
            t = []
            for m, c in sorted(p.items(), key=repr):
                f = [str(c)] if c != 1 or not m else []
                for a, e in m:
                    n = satom(a)
                    f.append(n if e == 1 else "%s^%s" % (n, e))
                t.append("*".join(f))
            return " + ".join(t)

        s = sp(self.n)
        if self.d != {ONE: Fraction(1)}:
            s = "(%s)/(%s)" % (s, sp(self.d))
        return s if len(s) < 600 else s[:600] + "..."


def satom(a):
    if a == I:
        return "i"
    if a[0] == "root":
        return "sqrt(%r)" % (R(dict(a[1])),)
    if a[0] == "exp":
        return "exp(%s)" % "*".join(satom(b) if e == 1 else "%s^%s" % (satom(b), e) for b, e in a[1])
    if a[0] == "sym":
        return a[1]
    if a[0] == "conj":
        return "conj(%s)" % satom(a[1])
    try:
        return show(a)
    except Exception:
        return repr(a)


def num(c):
    return R(p_const(c))


def atom(a, e=1):
    return R({((a, Fraction(e)),): Fraction(1)})


def sym(name):
    return atom(("sym", name))


IMAG = R({((I, Fraction(1)),): Fraction(1)})
PI = sym("pi")


def r_pow(x, e):
    e = Fraction(e)
    if e.denominator == 1:
        n = int(e)
        base = x if n >= 0 else num(1) / x
        out = num(1)
        for _ in range(abs(n)):
            out = out * base
        return out
    if e.denominator == 2:
        return r_pow(r_sqrt(x), e.numerator)
    c = x.const()
    if c is not None and c > 0:
        return atom(("powc", c, e - (e.numerator // e.denominator))) * r_pow(x, e.numerator // e.denominator)
    if len(x.n) == 1 and len(x.d) == 1:
        (m, c), = x.n.items()
        if c > 0 and all(a != I and a[0] != "root" for a, _ in m):
            r = R({mono({a: ee * e for a, ee in m}): Fraction(1)})
            return r if c == 1 else r * r_pow(num(c), e)
    raise NotAlgebraic("power %s" % e)


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def r_sqrt(x):
    if x.is_zero():
        return x
    if len(x.d) > 1:
        # sqrt(n/d) = sqrt(n*d)/d   (d positive where the quotient is)
        return r_sqrt(R(p_mul(x.n, x.d))) / R(x.d)
    n = x.n
    if len(n) == 1:
        (m, c), = n.items()
        if c > 0 and all(a != I and a[0] != "root" for a, _ in m):
            p, q = _isqrt(c.numerator), _isqrt(c.denominator)
            half = {mono({a: e / 2 for a, e in m}): Fraction(1)}
            if p is not None and q is not None:
                return R(p_scale(half, Fraction(p, q)))
            # sqrt of the squarefree numeric part as a root atom
            k = c.numerator * c.denominator
            s = 1
            f = 2
            while f * f <= k:
                while k % (f * f) == 0:
                    k //= f * f
                    s *= f
                f += 1
            root = ("root", freeze(p_const(k)))
            return R(p_mul(p_scale(half, Fraction(s, c.denominator)), {((root, Fraction(1)),): Fraction(1)}))
    # pull the rational content out so that equal arguments share one atom
    lead = freeze(n)[0][1]
    c = abs(lead)
    if c != 1:
        return r_sqrt(num(c)) * r_sqrt(R(p_scale(n, 1 / c)))
    return R({((("root", freeze(n)), Fraction(1)),): Fraction(1)})


def r_exp(x):
    if x.is_zero():
        return num(1)
    if len(x.d) > 1 or x.d != {ONE: Fraction(1)}:
        # one opaque exponent
        return atom(("expq",) + x.frozen())
    out = num(1)
    for m, c in x.n.items():
        out = out * R({((("exp", m), c),): Fraction(1)})
    return out


def r_cos(x):
    e = r_exp(IMAG * x)
    return (e + r_exp(-(IMAG * x))) / num(2)


def r_sin(x):
    return (r_exp(IMAG * x) - r_exp(-(IMAG * x))) / (num(2) * IMAG)


def r_abs(x):
    c = x.const()
    if c is not None:
        return num(abs(c))
    if freeze(x.n)[0][1] < 0:
        x = -x
    return atom(("abs", x.frozen()))


def r_conj(x, is_real=lambda a: True):
    def ca(a, e):
        if a == I:
            return R({((I, Fraction(1)),): Fraction(-1)})
        if a[0] == "exp":
            # exponent monomial: conj of a product of atoms
            y = r_conj(R({a[1]: Fraction(1)}), is_real)
            return r_exp(y * num(e)) if True else None
        if a[0] == "root":
            y = r_conj(R(dict(a[1])), is_real)
            return r_pow(r_sqrt(y), int(e))
        if a[0] == "expq":
            q = R(dict(a[1]), dict(a[2]))
            return r_pow(r_exp(r_conj(q, is_real)), e)
        if a[0] == "conj":
            return r_pow(atom(a[1]), e)
        if a[0] == "powc":
            return atom(a, e)
        if is_real(a):
            return atom(a, e)
        return atom(("conj", a), e)

    def cp(p):
        if plain(p):
            return R(p)
        out = num(0)
        for m, c in p.items():
            t = num(c)
            for a, e in m:
                t = t * ca(a, e)
            out = out + t
        return out

    def plain(p):
        return all(a != I and a[0] not in ("exp", "expq", "conj", "powc") and (plain(dict(a[1])) if a[0] == "root" else is_real(a))
                   for m in p for a, e in m)

    if plain(x.n) and plain(x.d):
        return x
    return cp(x.n) / cp(x.d)


def r_subst(x, mapping):
    """replace atoms by quotients (also inside roots and exponents)"""
    def sa_(a, e):
        if a in mapping:
            return r_pow(mapping[a], e)
        if a[0] == "exp" and any(b in mapping or b[0] in ("root", "exp", "conj") for b, _ in a[1]):
            return r_exp(r_subst(R({a[1]: Fraction(1)}), mapping) * num(e))
        if a[0] == "root":
            return r_pow(r_sqrt(r_subst(R(dict(a[1])), mapping)), int(e))
        if a[0] == "expq":
            return r_pow(r_exp(r_subst(R(dict(a[1]), dict(a[2])), mapping)), e)
        if a[0] == "conj" and a[1] in mapping:
            return r_pow(r_conj(mapping[a[1]]), e)
        return atom(a, e)

    def sp(p):
        out = num(0)
        for m, c in p.items():
            t = num(c)
            for a, e in m:
                t = t * sa_(a, e)
            out = out + t
        return out
    return sp(x.n) / sp(x.d)


def r_diff(x, a):
    """partial derivative with respect to an atom (rational dependence only)"""
    def dp(p):
        out = {}
        for m, c in p.items():
            d = dict(m)
            for b in d:
                if b != a and contains_atom(b, a):
                    raise NotAlgebraic("derivative through " + satom(b))
            e = d.get(a, 0)
            if e:
                d[a] = e - 1
                out = p_add(out, {mono(d): c * e})
        return out
    dn, dd = R(dp(x.n)), R(dp(x.d))
    n, d = R(x.n), R(x.d)
    return (dn * d - n * dd) / (d * d)


def contains_atom(b, a):
    if b == a:
        return True
    return isinstance(b, tuple) and any(contains_atom(x, a) for x in b if isinstance(x, tuple))


# ------------------------------------------------------------------ from terms
MATHMODS = ("numpy.", "math.", "cmath.", "phasor.math.dispatched.", "phasor.math.")
FUNS = {"sqrt": r_sqrt, "exp": r_exp, "cos": r_cos, "sin": r_sin}


def frac_float(x):
    return Fraction(repr(x)) if isinstance(x, float) else Fraction(x)


ARRAY_SCALAR = [("global", "numpy." + n) for n in ("dot", "inner", "vdot", "matmul")]


class Alg:
    """Converter with a hook for domain atoms.

    leaf(term) -> R or a replacement atom or None (the term itself becomes the atom)."""

    def __init__(self, leaf=None, assume=()):
        self.leaf = leaf
        self.zero = {}
        self.cache = {}

    vectors = {}      # attribute name -> length

    def item_atom(self, t, i):
        return atom(("item", t, ("const", i)))

    def symbols_attr(self, t):
        return t[0] == "attr" and t[1][0] == "attr" and t[1][2] == "symbols"

    def __call__(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self.conv(t)
        return r

    def conv(self, t):
        if self.leaf is not None:
            r = self.leaf(t)
            if r is not None:
                return r if isinstance(r, R) else atom(r)
        k = t[0]
        if k == "item" or (k == "call" and t[1] in ARRAY_SCALAR):
            from .arrays import array
            a = array(self, t)
            if isinstance(a, R):
                return a
        if k == "const":
            v = t[1]
            if isinstance(v, bool):
                return num(int(v))
            if isinstance(v, (int, float)):
                if v != v or v in (float("inf"), float("-inf")):
                    return atom(t)
                return num(frac_float(v))
            if isinstance(v, complex):
                return num(frac_float(v.real)) + num(frac_float(v.imag)) * IMAG
            return atom(t)
        if k == "bin":
            op = t[1]
            if op in "+-*/":
                a, b = self(t[2]), self(t[3])
                if op == "+":
                    return a + b
                if op == "-":
                    return a - b
                if op == "*":
                    return a * b
                if b.is_zero():
                    raise NotAlgebraic("division by zero")
                return a / b
            if op == "**":
                b = self(t[3]).const()
                if b is not None:
                    try:
                        return r_pow(self(t[2]), b)
                    except NotAlgebraic:
                        return atom(("pow", self(t[2]).frozen(), b))
                return atom(("pow", self(t[2]).frozen(), self(t[3]).frozen()))
            return atom(t)
        if k == "un":
            if t[1] == "-":
                return -self(t[2])
            if t[1] == "+":
                return self(t[2])
            return atom(t)
        if k == "attr":
            if self.symbols_attr(t):
                if t[2] == "i":
                    return IMAG
                if t[2] == "i2pi":
                    return num(2) * PI * IMAG
                if t[2] == "pi":
                    return PI
                return sym(t[2])
            return atom(t)
        if k == "global":
            if t[1] in ("numpy.pi", "math.pi"):
                return PI
            return atom(t)
        if k == "floatstr":
            return atom(t)
        if k == "call":
            f = t[1]
            name = None
            if f[0] == "attr" and f[1][0] == "attr" and f[1][2] == "math" and self.symbols_attr(f[1]):
                name = f[2]
            elif f[0] == "attr" and self.symbols_attr(f):
                name = f[2]
                if name == "number" and len(t[2]) == 1:
                    return self(t[2][0])
            elif f[0] == "global" and f[1].startswith(MATHMODS):
                name = f[1].split(".")[-1]
            if name in FUNS and len(t[2]) == 1:
                a = self(t[2][0])
                return FUNS[name](a)
            if name in ("tan",) and len(t[2]) == 1:
                a = self(t[2][0])
                return r_sin(a) / r_cos(a)
            if name in ("asarray", "array", "float_", "complex_") and len(t[2]) >= 1 and t[2][0][0] not in ("list", "tuple"):
                return self(t[2][0])
            if name in ("conjugate", "conj") and len(t[2]) == 1:
                return r_conj(self(t[2][0]), self.real)
            if f == ("global", "builtins.float") or f == ("global", "builtins.complex"):
                if len(t[2]) == 1:
                    return self(t[2][0])
            if f[0] == "attr" and f[2] in ("conjugate", "conj") and not t[2]:
                return r_conj(self(f[1]), self.real)
            if name in ("log", "log10") and len(t[2]) == 1:
                return atom((name, self(t[2][0]).frozen()))
            if name in ("abs", "absolute") or f == ("global", "builtins.abs"):
                return r_abs(self(t[2][0]))
            # canonical arguments for opaque calls
            return atom(("call", f) + (tuple(self.canon(a) for a in t[2]), tuple((n, self.canon(a)) for n, a in t[3])))
        if k == "ite":
            raise NotAlgebraic("unresolved choice on %s" % show(t[1])[:80])
        return atom(t)

    def canon(self, a):
        try:
            return ("R",) + self(a).frozen()
        except NotAlgebraic:
            return a

    def real(self, a):
        return True


# ------------------------------------------------------------------ choices
def strip_any(c):
    """numpy.any / numpy.all / bool of an elementwise test: decided per element"""
    while c[0] == "call" and c[1][0] == "global" and c[1][1].split(".")[-1] in ("any", "all", "bool", "isscalar_any") and len(c[2]) == 1:
        c = c[2][0]
    if c[0] == "not":
        return neg(strip_any(c[1]))
    if c[0] == "and":
        return mk_and([strip_any(x) for x in c[1]])
    if c[0] == "or":
        return mk_or([strip_any(x) for x in c[1]])
    return c


def first_choice(t):
    """innermost-first condition of an ite inside t whose condition is itself choice-free"""
    if not isinstance(t, tuple) or not t or t[0] == "const":
        return None
    if t[0] == "ite":
        r = first_choice(t[1])
        return r if r is not None else t[1]
    for x in t:
        if isinstance(x, tuple):
            r = first_choice(x)
            if r is not None:
                return r
    return None


def choose(t, c, v):
    if not isinstance(t, tuple) or not t or t[0] == "const":
        return t
    if t[0] == "ite" and t[1] == c:
        return choose(t[2] if v else t[3], c, v)
    r = tuple(choose(x, c, v) if isinstance(x, tuple) else x for x in t)
    return r


def cases(terms, facts=(), decide=None, limit=512):
    """Split a tuple of terms on the choices inside them.

    -> list of (facts, terms) with facts: frozenset of normalized conditions assumed true.
    decide(cond, facts) -> True/False/None prunes."""
    out = []
    todo = [(frozenset(facts), tuple(terms))]
    while todo:
        fs, ts = todo.pop()
        c = None
        for t in ts:
            c = first_choice(t)
            if c is not None:
                break
        if c is None:
            out.append((fs, ts))
            if len(out) > limit:
                raise NotAlgebraic("too many choices")
            continue
        cc = strip_any(c)
        d = decide(cc, fs) if decide else None
        if d is None:
            d = known(cc, fs)
        for v in (True, False):
            if d is not None and d is not v:
                continue
            f2 = fs
            if d is None:
                f2 = fs | frozenset(lits(cc if v else neg(cc)))
            todo.append((f2, tuple(choose(t, c, v) for t in ts)))
    return out


def lits(c):
    if c[0] == "and":
        r = []
        for x in c[1]:
            r += lits(x)
        return r
    return [c]


def known(c, fs):
    if c == C(True):
        return True
    if c == C(False):
        return False
    if c in fs:
        return True
    if neg(c) in fs:
        return False
    if c[0] == "and":
        v = [known(x, fs) for x in c[1]]
        if False in v:
            return False
        return True if all(v) and None not in v else None
    if c[0] == "or":
        v = [known(x, fs) for x in c[1]]
        if True in v:
            return True
        return False if None not in v else None
    if c[0] == "not":
        v = known(c[1], fs)
        return None if v is None else not v
    if c[0] == "cmp" and c[1] == "==":
        # x == a and x == b with different constants
        x, k = (c[3], c[2]) if c[2][0] == "const" else (c[2], c[3])
        if k[0] == "const":
            for f in fs:
                if f[0] == "cmp" and f[1] == "==":
                    y, j = (f[3], f[2]) if f[2][0] == "const" else (f[2], f[3])
                    if y == x and j[0] == "const":
                        return j[1] == k[1]
    return None


def equalities(fs, alg):
    """atom -> value forced by facts x == constant (linear single-atom cases)"""
    mp = {}
    for f in fs:
        if f[0] == "cmp" and f[1] == "==":
            try:
                d = alg(f[2]) - alg(f[3])
            except (NotAlgebraic, RecursionError):
                continue
            # solve c*a + k == 0 for one atom
            n = d.n
            lin = [m for m in n if m != ONE]
            if len(lin) == 1 and len(lin[0]) == 1 and lin[0][0][1] == 1 and lin[0][0][0] != I:
                a = lin[0][0][0]
                mp[a] = num(-n.get(ONE, Fraction(0)) / n[lin[0]])
            elif len(lin) >= 2 and all(len(m) == 1 and m[0][1] == 1 for m in lin):
                # linear relation: eliminate one atom
                m0 = sorted(lin, key=repr)[0]
                a = m0[0][0]
                rest = R({m: c for m, c in n.items() if m != m0})
                mp[a] = -rest / num(n[m0])
    return mp


# ------------------------------------------------------------------ divisibility
def _cx(p):
    """poly as {monomial without i: (re, im)}"""
    out = {}
    for m, c in p.items():
        im = any(a == I for a, e in m)
        k = tuple((a, e) for a, e in m if a != I)
        r = out.get(k, (Fraction(0), Fraction(0)))
        out[k] = (r[0], r[1] + c) if im else (r[0] + c, r[1])
    return {k: v for k, v in out.items() if v != (0, 0)}


def divisible(p, q, limit=4000):
    """Is polynomial p a multiple of polynomial q (Laurent monomials are units)?  None-safe: False when unsure."""
    if not p:
        return True
    if not q:
        return False
    ats = sorted(set(a for x in (p, q) for m in x for a, e in m if a != I), key=_rep)
    if any(a[0] in ("root",) for a in ats):
        # roots satisfy relations: exact quotients may be missed, never invented
        pass

    def vec(m):
        d = dict(m)
        return tuple(d.get(a, Fraction(0)) for a in ats)
    P = {vec(k): v for k, v in _cx(p).items()}
    Q = {vec(k): v for k, v in _cx(q).items()}
    # a monomial factor of q is no unit where q vanishes: p must carry it too
    for i in range(len(ats)):
        if ats[i][0] not in ("exp",) and min(k[i] for k in Q) > min(0, min(k[i] for k in P)) and min(k[i] for k in P) < min(k[i] for k in Q):
            return False
    lq = max(Q)
    a, b = Q[lq]
    n2 = a * a + b * b
    # in an exact quotient every exponent lies in the difference of the exponent ranges
    lo = [min(k[i] for k in P) - min(k[i] for k in Q) for i in range(len(ats))]
    hi = [max(k[i] for k in P) - max(k[i] for k in Q) for i in range(len(ats))]
    for _ in range(limit):
        if not P:
            return True
        lp = max(P)
        t = tuple(x - y for x, y in zip(lp, lq))
        if any(x < l or x > h for x, l, h in zip(t, lo, hi)):
            return False
        c, d = P[lp]
        r = ((c * a + d * b) / n2, (d * a - c * b) / n2)
        for k, (u, v) in Q.items():
            kk = tuple(x + y for x, y in zip(k, t))
            w = P.get(kk, (Fraction(0), Fraction(0)))
            w = (w[0] - (r[0] * u - r[1] * v), w[1] - (r[0] * v + r[1] * u))
            if w == (0, 0):
                P.pop(kk, None)
            else:
                P[kk] = w
    return False
