"""Composite elements: which sub elements they build, with which parameters, and how they bond them."""
import ast

from .interp import Interp, SELF, NONE, C, walk, show
from .coupling import KAlg
from .portflow import Keys
from .loader import is_property
from .algebra import NotAlgebraic, num


def computed(prog, ci, name):
    """a property computed from other attributes only (no value of its own given by the user)"""
    r = prog.lookup(ci, name)
    if r is None or not isinstance(r[1], ast.FunctionDef) or not is_property(r[1]):
        return False
    a = r[1].args
    return len(a.args) == 1 and not a.vararg and not a.kwarg and not a.kwonlyargs


class Composite:
    def __init__(self, prog, ci):
        self.prog, self.ci = prog, ci
        self.it = Interp(prog, ci)
        self.cache = {}

    def value(self, name):
        if name not in self.cache:
            self.cache[name] = None
            try:
                r = self.it.run_method(name, [])
                self.cache[name] = None if r is None else self.inline(self.it.reify(r))
            except RecursionError:
                raise
        return self.cache[name]

    def inline(self, t, seen=()):
        """private and helper properties replaced by what they compute, as long as that builds no object"""
        if not isinstance(t, tuple) or not t or t[0] == "const":
            return t
        if t[0] == "attr" and t[1] == SELF and t[2] not in seen and computed(self.prog, self.ci, t[2]):
            n = len(self.it.effects)
            r = self.it.run_method(t[2], [])
            del self.it.effects[n:]
            if r is not None:
                r = self.it.reify(r)
                if not any(q and q[0] in ("new", "func", "opaque", "param") for q in walk(r)):
                    return self.inline(r, seen + (t[2],))
        return tuple(self.inline(x, seen) if isinstance(x, tuple) else x for x in t)

    def sub(self, name):
        """(class qualname, {keyword: term}) of a sub element property"""
        t = self.value(name)
        if t is None or t[0] != "new":
            return None
        return t[1], dict(t[3]), t[2]

    def alg(self, t):
        return KAlg(Keys(None, {}))(t)

    def effects(self, method):
        n = len(self.it.effects)
        self.it.run_method(method, [])
        return self.it.effects[n:]
