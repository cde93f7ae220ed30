"""Small worlds of concrete containers and program objects around abstract values.

World(prog, ...) wraps the value-flow engine with opts["objects"]: classes it is told to
model become objects whose constructors and special methods are analysed like any other
code; dictionary keys and list shapes are given, scalars stay abstract."""
import ast

from .interp import Interp, Frame, C, NONE, is_const, show
from .loader import AnalysisBroken


class World:
    def __init__(self, prog, objects=(), dicts=(), fns=None, calls=None, **opts):
        """objects: module prefixes or class names modelled as objects; dicts: class names modelled as plain
        dictionaries; fns: name -> function(world, args) for program functions; calls: same for other calls"""
        self.prog = prog
        self.fns, self.calls = fns or {}, calls
        o = dict(objects=lambda q: any(q.startswith(p) or q.split(":")[-1] == p for p in objects), fn_hook=self.fn_hook)
        if dicts:
            o["new_hook"] = lambda it, q, args, kw, node: it.new_heap("dict") if q.split(":")[-1] in dicts else None
        if calls:
            o["call_hook"] = lambda it, func, args, kw, node: calls(self, func, args, kw)
        o.update(opts)
        self.it = Interp(prog, None, expand="full", opts=o)

    def fn_hook(self, it, fv, args, kwargs, node):
        name = getattr(fv.node, "name", None)
        h = self.fns.get(name)
        return None if h is None else h(self, args, kwargs)

    # ------------------------------------------------------------ building
    def cls(self, module, name):
        return self.prog.get_class(module, name)

    def new(self, ci, *args, **kwargs):
        return self.it.make(ci.qual, list(args), list(kwargs.items()))

    def blank(self, ci, **attrs):
        """an object whose constructor is not analysed; empty containers its methods assign are given"""
        obj = self.it.fresh(ci)
        for c in reversed(self.prog.mro(ci)):
            for m in c.members.values():
                if not isinstance(m, ast.FunctionDef):
                    continue
                for n in ast.walk(m):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                            and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self" \
                            and isinstance(n.value, (ast.Call, ast.List, ast.Dict)) and not (isinstance(n.value, ast.Call) and len(n.value.args) > 1):
                        self.it.frames.append(Frame(c.module, c, {}))
                        mark = len(self.it.effects)
                        try:
                            v = self.it.ev(n.value)
                        finally:
                            self.it.frames.pop()
                            del self.it.effects[mark:]
                        if v[0] == "obj" and not self.it.heap[v[1]].items and not self.it.heap[v[1]].taint:
                            self.it.store[(obj, n.targets[0].attr)] = v
        for k, v in attrs.items():
            self.it.store[(obj, k)] = v
        return obj

    def list(self, xs):
        return self._heap("list", [(x, (), ()) for x in xs])

    def set(self, xs):
        return self._heap("set", [(x, (), ()) for x in xs])

    def dict(self, pairs):
        return self._heap("dict", [(k, v, (), ()) for k, v in (pairs.items() if isinstance(pairs, dict) else pairs)])

    def _heap(self, kind, items):
        h = self.it.new_heap(kind)
        self.it.heap[h[1]].items = items
        return h

    # ------------------------------------------------------------ running
    def call(self, obj, name, *args, **kwargs):
        f = self.it.get_attr(obj, name)
        return self.it.call(f, list(args), list(kwargs.items()), None)

    def func(self, module, name, *args, **kwargs):
        m, node = self.prog.get_func(module, name)
        return self.it.run_func(m, node, list(args), list(kwargs.items()))

    def apply(self, f, *args, **kwargs):
        return self.it.call(f, list(args), list(kwargs.items()), None)

    def attr(self, obj, name):
        return self.it.get_attr(obj, name)

    # ------------------------------------------------------------ reading
    def entries(self, t):
        """live (key, value, guards) of a concrete dictionary"""
        if t[0] == "dict":
            return [(k, v, ()) for k, v in t[1]]
        if t[0] != "obj" or self.it.heap[t[1]].kind != "dict" or self.it.heap[t[1]].taint:
            raise Unreadable("not a concrete dictionary: %s" % show(t)[:80])
        out = []
        for k, v, l, g in self.it.heap[t[1]].items:
            if l:
                raise Unreadable("entries added in an open loop")
            out = [x for x in out if not (x[0] == k and not g)] + [(k, v, tuple(g))]
        return out

    def elems(self, t):
        """members of a concrete list, set or tuple"""
        if t[0] == "call" and t[1][0] == "global" and len(t[2]) == 1:
            return self.elems(t[2][0])
        c = self.it.iter_concrete(t)
        if c is None or any(l or g for _, l, g in c):
            if t[0] in ("list", "set"):
                return list(t[1])
            raise Unreadable("not a concrete collection: %s" % show(t)[:80])
        return [x for x, _, _ in c]


class Unreadable(Exception):
    pass
