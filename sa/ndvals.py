"""Small numpy arrays as values: shape, indexing, elementwise arithmetic, einsum, dot, inverse of small matrices."""
import itertools

from .interp import C, Value, NONE

UFUNCS = {"real", "imag", "conjugate", "conj", "abs", "absolute", "sqrt", "exp", "cos", "sin", "negative", "square", "asarray", "isfinite", "arccos", "sign"}


def shape(a):
    s = []
    while isinstance(a, tuple) and not is_term(a):
        s.append(len(a))
        a = a[0]
    return tuple(s)


def is_term(a):
    return isinstance(a, tuple) and a and isinstance(a[0], str)


def emap(f, a):
    return f(a) if is_term(a) else tuple(emap(f, x) for x in a)


def ezip(f, a, b):
    ta, tb = is_term(a), is_term(b)
    if ta and tb:
        return f(a, b)
    da, db = len(shape(a)), len(shape(b))
    if da < db:
        return tuple(ezip(f, a, y) for y in b)
    if db < da:
        return tuple(ezip(f, x, b) for x in a)
    if len(a) == len(b):
        return tuple(ezip(f, x, y) for x, y in zip(a, b))
    if len(a) == 1:
        return tuple(ezip(f, a[0], y) for y in b)
    if len(b) == 1:
        return tuple(ezip(f, x, b[0]) for x in a)
    raise ValueError("shapes")


def bin_(op, a, b):
    if op == "*":
        if C(0) in (a, b):
            return C(0)
        if a == C(1):
            return b
        if b == C(1):
            return a
    if op == "+":
        if a == C(0):
            return b
        if b == C(0):
            return a
    return ("bin", op, a, b)


def add_all(ts):
    t = C(0)
    for x in ts:
        t = bin_("+", t, x)
    return t


class Arr(Value):
    def __init__(self, data):
        self.data = data
        self.shape = shape(data)

    def __repr__(self):
        return "Arr%r" % (self.shape,)

    def __eq__(self, o):
        return isinstance(o, Arr) and o.data == self.data

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.data)

    def attr(self, it, name):
        if name == "shape":
            return ("tuple", tuple(C(n) for n in self.shape))
        if name == "ndim":
            return C(len(self.shape))
        if name == "T":
            return C(Arr(transpose(self.data, tuple(reversed(range(len(self.shape)))))))
        if name in ("real", "imag"):
            return C(Arr(emap(lambda t: ("attr", t, name), self.data)))
        return None

    def at(self, ix):
        d = self.data
        for i in ix:
            d = d[i]
        return d

    def item(self, it, key):
        ix = key[1] if key[0] == "tuple" else (key,)
        if ix and ix[0] == C(Ellipsis) and len(ix) - 1 == len(self.shape):
            ix = ix[1:]
        if ix and ix[-1] == C(Ellipsis):
            ix = ix[:-1]
        if all(i[0] == "const" and isinstance(i[1], int) for i in ix) and len(ix) <= len(self.shape):
            return wrap(self.at([i[1] for i in ix]))
        return None

    def unop(self, it, op):
        return C(Arr(emap(lambda t: ("un", op, t), self.data))) if op in "+-" else None

    def binop(self, it, op, other, swapped):
        if op not in ("+", "-", "*", "/", "**"):
            return None
        o = other[1].data if other[0] == "const" and isinstance(other[1], Arr) else other
        if other[0] == "obj":
            return None
        a, b = (o, self.data) if swapped else (self.data, o)
        return C(Arr(ezip(lambda x, y: bin_(op, x, y), a, b)))

    def method(self, it, name, args, kw):
        if name in ("conjugate", "conj", "copy", "dot", "transpose") or name in ("astype", "squeeze"):
            return numpy_call(it, name, [C(self)] + list(args), kw)
        return None

    def iterate(self, it):
        return [wrap(x) for x in self.data]


def wrap(d):
    return d if is_term(d) else C(Arr(d))


def data_of(it, t):
    if t[0] == "const" and isinstance(t[1], Arr):
        return t[1].data
    if t[0] in ("list", "tuple") or (t[0] == "obj" and it.heap[t[1]].kind == "list"):
        els = it.iter_concrete(t) if t[0] != "list" else [(x, (), ()) for x in t[1]]
        if els is None or any(l or g for _, l, g in els):
            return None
        ds = [data_of(it, x) for x, _, _ in els]
        return None if any(d is None for d in ds) or not ds else tuple(ds)
    return t


def transpose(a, perm):
    s = shape(a)
    return build([s[p] for p in perm], lambda ix: get(a, [ix[perm.index(i)] for i in range(len(s))]))


def get(a, ix):
    for i in ix:
        a = a[i]
    return a


def build(s, f, ix=()):
    if len(ix) == len(s):
        return f(ix)
    return tuple(build(s, f, ix + (i,)) for i in range(s[len(ix)]))


def einsum(spec, ops):
    spec = spec.replace(" ", "").replace("...", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    size = {}
    for s, a in zip(ins, ops):
        sh = shape(a)
        if len(sh) != len(s):
            raise ValueError("einsum shapes")
        for c, n in zip(s, sh):
            if size.setdefault(c, n) != n:
                raise ValueError("einsum shapes")
    if not _:
        out = "".join(sorted(c for c in size if sum(s.count(c) for s in ins) == 1))
    inner = [c for c in size if c not in out]

    def entry(ix):
        env = dict(zip(out, ix))
        ts = []
        for jx in itertools.product(*[range(size[c]) for c in inner]):
            env.update(zip(inner, jx))
            t = C(1)
            for s, a in zip(ins, ops):
                t = bin_("*", t, get(a, [env[c] for c in s]))
            ts.append(t)
        return add_all(ts)
    return build([size[c] for c in out], entry)


def det(m):
    if len(m) == 1:
        return m[0][0]
    return add_all([bin_("*", C(-1) if j % 2 else C(1), bin_("*", m[0][j], det(minor(m, 0, j)))) for j in range(len(m))])


def minor(m, i, j):
    return tuple(tuple(x for k, x in enumerate(r) if k != j) for n, r in enumerate(m) if n != i)


def inverse(m):
    n = len(m)
    d = det(m)
    if n == 1:
        return ((bin_("/", C(1), d),),)
    return tuple(tuple(bin_("/", bin_("*", C((-1) ** (i + j)), det(minor(m, j, i))), d) for j in range(n)) for i in range(n))


def numpy_call(it, name, args, kw):
    """result of the numpy function, None when it is not modelled for these operands"""
    if name == "einsum" and len(args) >= 2 and args[0][0] == "const" and isinstance(args[0][1], str) and not kw:
        ops = [data_of(it, a) for a in args[1:]]
        return None if any(o is None for o in ops) else wrap(einsum(args[0][1], ops))
    if not args:
        return None
    d = data_of(it, args[0])
    if d is None:
        return None
    if is_term(d):
        return None
    n = len(shape(d))
    if name in ("array", "asarray", "asanyarray", "copy", "ascontiguousarray", "astype", "squeeze", "require"):
        return C(Arr(d))
    if name in UFUNCS and len(args) == 1:
        return C(Arr(emap(lambda t: ("attr", t, name) if name in ("real", "imag") else ("call", ("global", "numpy." + name), (t,), ()), d)))
    if name in ("dot", "matmul") and len(args) == 2:
        b = data_of(it, args[1])
        if b is None or is_term(b):
            return None
        m = len(shape(b))
        i, k = "abcd"[:n - 1] + "k", ("k" if m == 1 else "k" + "z") if m <= 2 else None
        return None if k is None else wrap(einsum("%s,%s->%s" % (i, k, (i + k).replace("k", "")), [d, b]))
    if name == "inv" and n == 2:
        return C(Arr(inverse(d)))
    if name == "det" and n == 2:
        return det(d)
    if name == "transpose" and len(args) == 1:
        return C(Arr(transpose(d, tuple(reversed(range(n))))))
    if name in ("rollaxis", "moveaxis", "swapaxes") and all(a[0] == "const" for a in args[1:]):
        v = [a[1] for a in args[1:]] + [dict(kw)[x][1] for x in ("axis", "start") if x in dict(kw)]
        perm = list(range(n))
        if name == "swapaxes":
            a, b = v[0] % n, v[1] % n
            perm[a], perm[b] = perm[b], perm[a]
        else:
            a = v[0] % n
            perm.remove(a)
            start = v[1] if len(v) > 1 else 0
            if name == "rollaxis":
                start = start + n if start < 0 else start
                start = start - 1 if a < start else start
            else:
                start = start % n
            perm.insert(start, a)
        return C(Arr(transpose(d, tuple(perm))))
    return None
