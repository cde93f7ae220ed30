"""Port keys as values: the documented meaning of DictKey and FrequencyKey.

A frequency key is a finite integer combination of frequencies, a port key a finite map.
The classes of /repo are compared with this meaning by C12; other analyses compute with it."""
from .interp import C, Value, NONE


def num(n, t):
    return t if n == 1 else ("bin", "*", C(n), t)


class Freq(Value):
    """integer combination of frequency objects (terms)"""

    def __init__(self, d):
        self.d = tuple(sorted(((k, n) for k, n in d if n != 0), key=repr))

    def __eq__(self, o):
        return isinstance(o, Freq) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.d)

    def __repr__(self):
        return "Freq(%s)" % ",".join("%s:%d" % (k[-1], n) for k, n in self.d)

    def plus(self, o, s=1):
        d = dict(self.d)
        for k, n in o.d:
            d[k] = d.get(k, 0) + s * n
        return Freq(d.items())

    def scaled(self, n):
        return Freq([(k, n * m) for k, m in self.d])

    def unop(self, it, op):
        return C(self.scaled(-1)) if op == "-" else C(self) if op == "+" else None

    def binop(self, it, op, other, swapped):
        if other[0] == "const" and isinstance(other[1], Freq) and op in "+-":
            a, b = (other[1], self) if swapped else (self, other[1])
            return C(a.plus(b, 1 if op == "+" else -1))
        if op == "*" and other[0] == "const" and isinstance(other[1], int):
            return C(self.scaled(other[1]))
        return None

    def attr(self, it, name):
        if name == "F_dict":
            h = it.new_heap("dict")
            it.heap[h[1]].items = [(k, C(n), (), ()) for k, n in self.d]
            return h
        return None

    def item(self, it, key):
        return C(dict(self.d).get(key, 0))

    def method(self, it, name, args, kw):
        if name == "DC_is":
            return C(not self.d)
        if name == "frequency":
            return self.value(it)
        return None

    def value(self, it):
        t = None
        for k, n in self.d:
            x = num(n, ("attr", ("attr", k, "F_Hz"), "val"))
            t = x if t is None else ("bin", "+", t, x)
        return C(0) if t is None else t


class Key(Value):
    """map from constant names to values"""

    def __init__(self, d):
        self.d = tuple(sorted(dict(d).items(), key=repr))

    def __eq__(self, o):
        return isinstance(o, Key) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.d)

    def __repr__(self):
        return "Key(%s)" % ",".join("%s:%s" % (k, v[-1]) for k, v in self.d)

    def get(self, name):
        return dict(self.d).get(name)

    def drop(self, names):
        return Key([(k, v) for k, v in self.d if k not in names])

    def over(self, o):
        d = dict(self.d)
        d.update(dict(o.d))
        return Key(d)

    def has(self, o):
        return all(self.get(k) == v for k, v in o.d)

    def binop(self, it, op, other, swapped):
        if other[0] == "const" and isinstance(other[1], Key) and not swapped:
            o = other[1]
            if op == "|":
                return C(self.over(o))
            if op == "&":
                return C(Key([x for x in self.d if x in o.d]))
            if op == "-" and self.has(o):
                return C(self.drop([k for k, v in o.d]))
        return None

    def item(self, it, key):
        if key[0] == "const":
            return self.get(key[1])
        return None

    def method(self, it, name, args, kw):
        if kw:
            return None
        if name in ("without_keys", "purge_keys") and all(a[0] == "const" for a in args):
            return C(self.drop([a[1] for a in args]))
        if name in ("subkey_has", "contains") and len(args) == 1 and args[0][0] == "const" and isinstance(args[0][1], Key):
            return C(self.has(args[0][1]))
        if name == "kv_contains" and len(args) == 2 and args[0][0] == "const":
            return C(self.get(args[0][1]) == args[1])
        if name == "get" and args and args[0][0] == "const":
            v = self.get(args[0][1])
            return v if v is not None else (args[1] if len(args) > 1 else None)
        if name == "replace_keys" and args:
            out = self
            for a in args:
                o = as_map(it, a)
                if o is None:
                    return None
                out = out.over(Key(o))
            return C(out)
        if name in ("items", "iteritems"):
            return ("tuple", tuple(("tuple", (C(k), v)) for k, v in self.d))
        if name == "copy_update":
            return None
        return None

    def iterate(self, it):
        return [C(k) for k, v in self.d]


def as_map(it, t):
    if t[0] == "const" and isinstance(t[1], Key):
        return dict(t[1].d)
    items = None
    if t[0] == "obj" and it.heap[t[1]].kind == "dict" and not it.heap[t[1]].taint:
        items = it.heap[t[1]].items
        if any(l or g for k, v, l, g in items):
            return None
        items = [(k, v) for k, v, l, g in items]
    elif t[0] == "dict":
        items = t[1]
    if items is None or any(k[0] != "const" for k, v in items):
        return None
    return dict((k[1], v) for k, v in items)


def new_key(it, qual, args, kw, node=None):
    """new_hook: DictKey / FrequencyKey built from readable dictionaries"""
    name = qual.split(":")[-1]
    if name == "DictKey" and len(args) <= 1:
        d = {}
        if args:
            d = as_map(it, args[0])
            if d is None:
                return None
        d = dict(d)
        for k, v in kw:
            if k is None:
                m = as_map(it, v)
                if m is None:
                    return None
                d.update(m)
            else:
                d[k] = v
        return C(Key(d))
    if name == "FrequencyKey" and len(args) == 1 and not kw:
        t = args[0]
        if t[0] == "obj" and it.heap[t[1]].kind == "dict" and not it.heap[t[1]].taint:
            items = it.heap[t[1]].items
        elif t[0] == "dict":
            items = [(k, v, (), ()) for k, v in t[1]]
        else:
            return None
        if any(l or g or v[0] != "const" or not isinstance(v[1], int) for k, v, l, g in items):
            return None
        return C(Freq([(k, v[1]) for k, v, l, g in items]))
    return None
