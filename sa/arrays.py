"""Small numpy arrays of algebraic values: literals, eye, dot, outer, transpose, elementwise arithmetic, indexing."""
from .algebra import num, NotAlgebraic


def shape(a):
    s = []
    while isinstance(a, list):
        s.append(len(a))
        a = a[0] if a else None
    return s


def emap(f, a):
    return [emap(f, x) for x in a] if isinstance(a, list) else f(a)


def ezip(f, a, b):
    la, lb = isinstance(a, list), isinstance(b, list)
    if not la and not lb:
        return f(a, b)
    da, db = len(shape(a)), len(shape(b))
    if da < db:
        return [ezip(f, a, y) for y in b]
    if db < da:
        return [ezip(f, x, b) for x in a]
    if len(a) == len(b):
        return [ezip(f, x, y) for x, y in zip(a, b)]
    if len(a) == 1:
        return [ezip(f, a[0], y) for y in b]
    if len(b) == 1:
        return [ezip(f, x, b[0]) for x in a]
    raise NotAlgebraic("array shapes do not match")


def transpose(a):
    return [list(r) for r in zip(*a)] if len(shape(a)) == 2 else a


def dot(a, b):
    da, db = len(shape(a)), len(shape(b))
    if da == 0 or db == 0:
        return ezip(lambda x, y: x * y, a, b)
    if da == 1 and db == 1:
        if len(a) != len(b):
            raise NotAlgebraic("array shapes do not match")
        s = num(0)
        for x, y in zip(a, b):
            s = s + x * y
        return s
    if da == 1:
        return [dot(a, c) for c in transpose(b)]
    if db == 1:
        return [dot(r, b) for r in a]
    return [[dot(r, c) for c in transpose(b)] for r in a]


def flat(a):
    return [y for x in a for y in flat(x)] if isinstance(a, list) else [a]


def array(alg, t):
    """nested lists of R (a scalar R for a scalar array), None when t is not an array this module reads"""
    k = t[0]
    if k == "call" and t[1][0] == "global" and t[1][1].startswith("numpy."):
        f = t[1][1].split(".")[-1]
        if f in ("array", "asarray", "asanyarray") and t[2]:
            return literal(alg, t[2][0])
        if f in ("eye", "identity") and len(t[2]) == 1 and t[2][0][0] == "const":
            n = t[2][0][1]
            return [[num(int(i == j)) for j in range(n)] for i in range(n)]
        if f in ("dot", "inner", "outer", "matmul", "vdot") and len(t[2]) == 2:
            a, b = operand(alg, t[2][0]), operand(alg, t[2][1])
            if a is None or b is None:
                return None
            if f == "outer":
                return [[x * y for y in flat(b)] for x in flat(a)]
            return dot(a, b)
        if f == "transpose" and len(t[2]) == 1:
            a = operand(alg, t[2][0])
            return None if a is None else transpose(a)
        if f == "cross" and len(t[2]) == 2:
            a, b = operand(alg, t[2][0]), operand(alg, t[2][1])
            if a is None or b is None or shape(a) != [3] or shape(b) != [3]:
                return None
            return [a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3] for i in range(3)]
        return None
    if k == "attr" and t[2] == "T":
        a = array(alg, t[1])
        return None if a is None else transpose(a)
    if k == "call" and t[1][0] == "attr" and t[1][2] == "dot" and len(t[2]) == 1:
        a, b = operand(alg, t[1][1]), operand(alg, t[2][0])
        return None if a is None or b is None else dot(a, b)
    if k == "bin" and t[1] in ("+", "-", "*", "/", "@"):
        a, b = array(alg, t[2]), array(alg, t[3])
        if a is None and b is None:
            return None
        if a is None:
            a = alg(t[2])
        if b is None:
            b = alg(t[3])
        if t[1] == "@":
            return dot(a, b)
        f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}[t[1]]
        return ezip(f, a, b)
    if k == "un" and t[1] in "+-":
        a = array(alg, t[2])
        return None if a is None else (a if t[1] == "+" else emap(lambda x: -x, a))
    if k == "attr" and t[2] in alg.vectors:
        return [alg.item_atom(t, i) for i in range(alg.vectors[t[2]])]
    if k == "item":
        a = array(alg, t[1])
        if isinstance(a, list):
            return index(a, t[2])
    return None


def operand(alg, t):
    a = array(alg, t)
    if a is None and t[0] in ("list", "tuple"):
        a = literal(alg, t)
    return a


def literal(alg, t):
    if t[0] in ("list", "tuple"):
        return [literal(alg, x) for x in t[1]]
    a = array(alg, t)
    return a if a is not None else alg(t)


def index(a, i):
    if i[0] == "tuple":
        for x in i[1]:
            a = index(a, x)
            if a is None:
                return None
        return a
    if i[0] == "const" and isinstance(i[1], tuple):
        for x in i[1]:
            if not isinstance(a, list) or not isinstance(x, int):
                return None
            a = a[x]
        return a
    if i[0] == "const" and isinstance(i[1], int) and isinstance(a, list):
        if not -len(a) <= i[1] < len(a):
            raise NotAlgebraic("index out of range")
        return a[i[1]]
    return None
