"""Gated value-numbering / effect analysis for a Python subset.

One abstract pass per function: branches are merged at joins with gates
('ite'), loops over literal collections are unrolled, every other loop is
analysed once for an arbitrary element, helper functions and methods of the
analysed class are inlined through the resolved class hierarchy.  No path is
enumerated, no constraint is solved, nothing of the repository is executed.

Terms are nested tuples; effects are calls / stores that leave the analysed
code, with the loops and guards they sit under.
"""
import ast
from .loader import Program, AnalysisBroken, is_property, is_static, is_classmethod, deco_names

MAX_DEPTH = 24
MAX_UNROLL = 80


class SurelyFails(Exception):
    """exact mode: an operation that raises on every run reaching it, reached unconditionally"""


class FuncVal:
    __slots__ = ("node", "module", "defclass", "env", "bound", "fid", "cls_bound")

    def __init__(self, node, module, defclass, env, bound, fid):
        self.node = node
        self.module = module
        self.defclass = defclass
        self.env = env
        self.bound = bound
        self.fid = fid


class Heap:
    __slots__ = ("kind", "items", "taint", "default")

    def __init__(self, kind):
        self.kind = kind          # list | set | dict
        self.items = []           # list/set: (term, loops, guards)   dict: (key, val, loops, guards)
        self.taint = False
        self.default = None


class Effect:
    __slots__ = ("kind", "func", "args", "kwargs", "loops", "guards", "node", "module", "stack")

    def __init__(self, kind, func, args, kwargs, loops, guards, node, module, stack):
        self.kind = kind
        self.func = func
        self.args = args
        self.kwargs = kwargs
        self.loops = loops
        self.guards = guards
        self.node = node
        self.module = module
        self.stack = stack

    @property
    def loc(self):
        return "%s:%d" % (self.module.relpath, getattr(self.node, "lineno", 0))

    def method(self):
        return self.func[2] if self.func[0] == "attr" else None

    def arg(self, i, name=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        for k, v in self.kwargs:
            if k == name:
                return v
        return None


class Frame:
    def __init__(self, module, defclass, env, parent=None):
        self.locals = {}
        self.module = module
        self.defclass = defclass
        self.closure = env          # list of dicts (innermost first)
        self.returns = []           # (guards, term)
        self.yields = None
        self.entry_guards = ()
        self.globals_decl = set()


SELF = ("self",)
MISSING = ("missing",)
NONE = ("const", None)
TRUE = ("const", True)
FALSE = ("const", False)


def C(v):
    return ("const", v)


class Value:
    """modelled immutable objects carried as constants; every hook returns a term or None (not modelled)"""

    def attr(self, it, name):
        return None

    def item(self, it, key):
        return None

    def unop(self, it, op):
        return None

    def binop(self, it, op, other, swapped):
        return None

    def method(self, it, name, args, kw):
        return None

    def iterate(self, it):
        return None

    def setattr(self, it, name, v):
        """True when taken"""
        return None

    def setitem(self, it, key, v):
        return None

    def contains(self, it, x):
        return None


def is_value(t):
    return t[0] == "const" and isinstance(t[1], Value)


def is_const(t):
    return t[0] == "const"


def subst(t, mapping):
    """Replace sub-terms."""
    if t in mapping:
        return mapping[t]
    if isinstance(t, tuple) and t and t[0] != "const":
        new = tuple(subst(x, mapping) if isinstance(x, tuple) else x for x in t)
        if new != t:
            return new
    return t


def walk(t):
    """All tuple sub-terms."""
    stack = [t]
    while stack:
        x = stack.pop()
        yield x
        if x and x[0] == "const":
            continue
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)


def contains(t, pred):
    for x in walk(t):
        if pred(x):
            return True
    return False


def neg(c):
    if c[0] == "not":
        return c[1]
    if c[0] == "const":
        return C(not c[1])
    if c[0] == "cmp" and c[1] in ("<", "<="):
        # not (a < b)  ==  b <= a   (total order on the quantities compared here)
        return ("cmp", "<=" if c[1] == "<" else "<", c[3], c[2])
    if c[0] == "and":
        return mk_or([neg(x) for x in c[1]])
    if c[0] == "or":
        return mk_and([neg(x) for x in c[1]])
    return ("not", c)


def _key(t):
    return repr(t)


def mk_and(xs):
    out = []
    for x in xs:
        if x == TRUE:
            continue
        if x == FALSE:
            return FALSE
        if x[0] == "and":
            for y in x[1]:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if neg(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ("and", tuple(sorted(out, key=_key)))


def mk_or(xs):
    out = []
    for x in xs:
        if x == FALSE:
            continue
        if x == TRUE:
            return TRUE
        if x[0] == "or":
            for y in x[1]:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if neg(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # (a and b) or (a and not b) -> a
    for i in range(len(out)):
        for j in range(len(out)):
            if i == j:
                continue
            ai = set(out[i][1]) if out[i][0] == "and" else {out[i]}
            aj = set(out[j][1]) if out[j][0] == "and" else {out[j]}
            if ai <= aj:     # absorption
                return mk_or([x for k, x in enumerate(out) if k != j])
            d1 = ai - aj
            d2 = aj - ai
            if len(d1) == 1 and len(d2) == 1 and neg(next(iter(d1))) == next(iter(d2)):
                rest = mk_and(list(ai & aj))
                return mk_or([rest] + [x for k, x in enumerate(out) if k not in (i, j)])
            # absorption with complement: a or (not a and b) -> a or b
            if len(ai) == 1 and neg(next(iter(ai))) in aj:
                red = mk_and([x for x in aj if x != neg(next(iter(ai)))])
                return mk_or([x if k != j else red for k, x in enumerate(out)])
    return ("or", tuple(sorted(out, key=_key)))


def atoms(c):
    """Guard term -> tuple of conjuncts."""
    if c == TRUE:
        return ()
    if c[0] == "and":
        return tuple(c[1])
    return (c,)


def mk_ite(c, a, b):
    if a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if c[0] == "not":
        return mk_ite(c[1], b, a)
    if c[0] == "cmp" and c[1] == "<=":
        return ("ite", neg(c), b, a)
    return ("ite", c, a, b)


NUMERIC = (int, float, complex)
COMM = {"+", "*", "|", "&"}


def plain(x):
    return not x[-1] and not x[-2]


def uniq(items):
    """a set holds an unconditional member once"""
    out, seen = [], set()
    for t, l, g in items:
        if t in seen:
            continue
        if not l and not g:
            seen.add(t)
        out.append((t, l, g))
    return out


class Interp:
    def __init__(self, prog, cls=None, *, expand="alias", inline_filter=None, opts=None):
        self.prog = prog
        self.cls = cls
        self.expand = expand
        self.inline_filter = inline_filter or (lambda module, node, defclass: True)
        self.opts = opts or {}
        self.heap = []
        self.funcs = []
        self.effects = []
        self.store = {}
        self.guards = ()
        self.loops = ()
        self.tested, self.grown = [], {}
        self.frames = []
        self.callstack = []
        self._prop_cache = {}
        self._prop_active = set()
        self._opaque = 0
        self._token = 0
        self.muted = 0
        self.selfcls = {SELF: cls}
        self.exact = bool(self.opts.get("exact"))
        self.strict = bool(self.opts.get("strict"))     # objects have exactly the attributes they were given
        self.maxn = 400 if self.exact else MAX_UNROLL
        self._dead = None

    # ------------------------------------------------------------------ API
    def method(self, name, selfterm=SELF, cls=None):
        cls = cls or self.cls
        r = self.prog.lookup(cls, name)
        if r is None:
            return None
        dc, member = r
        if not isinstance(member, (ast.FunctionDef,)):
            return None
        return self.mkfunc(member, dc.module, dc, [], None if is_static(member) else selfterm)

    def run_method(self, name, args=(), kwargs=(), selfterm=SELF):
        f = self.method(name, selfterm)
        if f is None:
            return None
        return self.call_func(f, list(args), list(kwargs), None)

    def run_func(self, module, node, args=(), kwargs=()):
        f = self.mkfunc(node, module, None, [], None)
        return self.call_func(f, list(args), list(kwargs), None)

    def mkfunc(self, node, module, defclass, env, bound):
        fid = len(self.funcs)
        self.funcs.append(FuncVal(node, module, defclass, env, bound, fid))
        return ("func", fid)

    def constructor_state(self):
        """Containers the constructor builds and leaves on the object: attribute -> value."""
        r = self.prog.lookup(self.cls, "__init__")
        if r is None:
            return
        self.muted += 1
        try:
            f = self.method("__init__")
            node = self.funcs[f[1]].node
            params = [a.arg for a in node.args.args[1:]]
            self.call_func(f, [("param", p) for p in params], [], None)
        finally:
            self.muted -= 1
            self.guards, self.loops = (), ()
        elsewhere = set()
        for ci in self.prog.mro(self.cls):
            for nm, m in ci.members.items():
                if nm == "__init__" or not isinstance(m, ast.FunctionDef):
                    continue
                for x in ast.walk(m):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        elsewhere.add(x.attr)
        self.store = dict((k, v) for k, v in self.store.items()
                          if k[0] == SELF and k[1] not in elsewhere and v[0] == "obj" and not self.heap[v[1]].taint)

    # -------------------------------------------------------------- effects
    def emit(self, kind, func, args, kwargs, node):
        if self.muted:
            return
        mod = self.frames[-1].module if self.frames else None
        self.effects.append(Effect(
            kind, func, tuple(self.reify(a) for a in args),
            tuple((k, self.reify(v)) for k, v in kwargs),
            tuple((self.reify(l[0]), self.reify(l[1]), l[2]) for l in self.loops),
            self.guards, node, mod, tuple(self.callstack)))

    def opaque(self, why):
        self._opaque += 1
        return ("opaque", why, self._opaque)

    def reify(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "obj":
            h = self.heap[t[1]]
            if h.taint:
                return ("obj*", t[1])
            if h.kind == "dict":
                return ("dict", tuple((self.reify(k), self.reify(v)) for k, v, l, g in h.items))
            return (h.kind, tuple(self.reify(x) for x, l, g in h.items))
        if t[0] == "const":
            return t
        return tuple(self.reify(x) if isinstance(x, tuple) else x for x in t)

    # ---------------------------------------------------------------- calls
    def call_func(self, fterm, args, kwargs, node):
        fv = self.funcs[fterm[1]]
        n = fv.node
        if len(self.callstack) >= self.opts.get("depth", MAX_DEPTH) or sum(1 for s in self.callstack if s is n) >= self.opts.get("recursion", 2):
            return self.opaque("recursion")
        fr = Frame(fv.module, fv.defclass, fv.env)
        # lambdas
        a = n.args
        if fv.bound is not None:
            args = [fv.bound] + list(args)
        params = [p.arg for p in list(getattr(a, "posonlyargs", [])) + list(a.args)]
        defaults = list(a.defaults)
        loc = fr.locals
        self.frames.append(fr)
        self.callstack.append(n)
        saved_guards, saved_loops = self.guards, self.loops
        try:
            kw = dict((k, v) for k, v in kwargs if k is not None)
            star_kw = [v for k, v in kwargs if k is None]
            i = 0
            for i, p in enumerate(params):
                if i < len(args):
                    loc[p] = args[i]
                elif p in kw:
                    loc[p] = kw.pop(p)
                else:
                    di = i - (len(params) - len(defaults))
                    if di >= 0:
                        loc[p] = self.ev_default(fv, defaults[di])
                    else:
                        loc[p] = ("param", p)
            if a.vararg:
                h = self.new_heap("list")
                for x in args[len(params):]:
                    self.heap[h[1]].items.append((x, self.loops, self.guards))
                loc[a.vararg.arg] = ("tuple", tuple(args[len(params):]))
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if p.arg in kw:
                    loc[p.arg] = kw.pop(p.arg)
                elif d is not None:
                    loc[p.arg] = self.ev_default(fv, d)
                else:
                    loc[p.arg] = ("param", p.arg)
            if a.kwarg:
                h = self.new_heap("dict")
                for k, v in kw.items():
                    self.heap[h[1]].items.append((C(k), v, (), ()))
                if star_kw:
                    self.heap[h[1]].taint = True
                loc[a.kwarg.arg] = h
            fr.entry_guards = self.guards
            if isinstance(n, ast.Lambda):
                return self.ev(n.body)
            if _has_yield(n):
                fr.yields = self.new_heap("list")
            alive = self.block(n.body)
            if fr.yields is not None:
                return fr.yields
            rets = fr.returns
            if alive:
                rets = rets + [(self.guards, NONE)]
            if not rets:
                # a function that only raises: an abstract hook, named by its call
                f = ("attr", fv.bound, n.name) if fv.bound is not None else ("fn", fv.module.name + ":" + n.name)
                ra = tuple(self.reify(x) for x in (args[1:] if fv.bound is not None else args))
                return ("call", f, ra, ())
            ne = len(fr.entry_guards)
            val = rets[-1][1]
            for g, v in reversed(rets[:-1]):
                rel = mk_and([x for x in g if x not in fr.entry_guards])
                val = mk_ite(rel, v, val) if v != val else val
            return val
        finally:
            self.guards, self.loops = saved_guards, saved_loops
            self.frames.pop()
            self.callstack.pop()

    def ev_default(self, fv, expr):
        fr = Frame(fv.module, fv.defclass, fv.env)
        self.frames.append(fr)
        try:
            return self.ev(expr)
        finally:
            self.frames.pop()

    def new_heap(self, kind):
        self.heap.append(Heap(kind))
        return ("obj", len(self.heap) - 1)

    # ------------------------------------------------------------ variables
    def lookup_name(self, name):
        fr = self.frames[-1]
        if name in fr.locals:
            return fr.locals[name]
        for env in fr.closure:
            if name in env:
                return env[name]
        r = self.prog.resolve_in_module(fr.module.name, name)
        t = self.from_resolved(r)
        if t is not None:
            return t
        return ("global", "builtins." + name)

    def from_resolved(self, r):
        if r is None:
            return None
        if r[0] == "module":
            return ("module", r[1])
        if r[0] == "class":
            return ("class", r[1].qual)
        if r[0] == "func":
            return self.mkfunc(r[2], r[1], None, [], None)
        if r[0] == "assign":
            if isinstance(r[2], ast.Name):
                again = self.prog.resolve_in_module(r[1].name, r[2].id)
                if again is not None and again[0] == "assign" and again[2] is r[2]:
                    return ("global", "builtins." + r[2].id)
            return self.module_const(r[1], r[2])
        if r[0] == "ext":
            return ("global", r[1])
        return None

    def module_const(self, m, expr):
        if isinstance(expr, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.UnaryOp, ast.BinOp, ast.Name, ast.Attribute, ast.Set, ast.Lambda)) \
                or (isinstance(expr, ast.Call) and self.opts.get("values") and self.module_value(m, expr)):
            fr = Frame(m, None, [])
            self.frames.append(fr)
            self.muted += 1
            sg, sl = self.guards, self.loops
            self.guards, self.loops = (), ()
            try:
                return self.ev(expr)
            finally:
                self.guards, self.loops = sg, sl
                self.muted -= 1
                self.frames.pop()
        for k, v in m.defs.items():
            if isinstance(v, tuple) and v[1] is expr:
                return ("global", m.name + ":" + k)
        return ("global", m.name + ":<expr>")

    def module_value(self, m, expr):
        """a module constant built by a modelled class"""
        return isinstance(expr.func, (ast.Name, ast.Attribute)) and ast.unparse(expr.func).split(".")[-1] in self.opts["values"]

    # ----------------------------------------------------------- attributes
    def get_attr(self, base, name, node=None):
        if self.exact and base[0] == "obj" and name in ("shape", "size") and self.heap[base[1]].kind == "list" and not self.heap[base[1]].taint:
            n = C(len(self.heap[base[1]].items))
            return ("tuple", (n,)) if name == "shape" else n
        if base == SELF and name in self.opts.get("alias", ()):
            name = self.opts["alias"][name]
        if (base, name) in self.store:
            return self.store[(base, name)]
        if base[0] == "attr" and base[2] == "own":
            return self.get_attr(base[1], name, node)
        if is_value(base):
            r = base[1].attr(self, name)
            if r is not None:
                return r
        if base[0] == "const" and self.exact and name in ("real", "imag") and isinstance(base[1], (int, float, complex)) and not isinstance(base[1], bool):
            return C(getattr(base[1], name))
        if self.opts.get("attr"):
            r = self.opts["attr"](self, base, name)
            if r is not None:
                return r
        if base[0] == "inst" and "ambient" in self.opts:
            if name == "own":
                return base
            if name in self.opts["ambient"]:
                return self.opts["ambient"][name]
        if base[0] == "module":
            r = self.prog.resolve_in_module(base[1], name)
            t = self.from_resolved(r)
            return t if t is not None else ("global", base[1] + "." + name)
        if base[0] == "global":
            return ("global", base[1] + "." + name)
        if base[0] == "super":
            cls, after, st = base[1], base[2], base[3]
            ci = self.selfcls.get(st)
            dc = self._class_by_qual(after)
            r = self.prog.lookup(ci, name, after=dc) if ci is not None else None
            if r is None:
                r = self.opts["super_missing"](self, st, name) if self.opts.get("super_missing") else None
                return ("attr", ("super*",), name) if r is None else r
            return self.member_value(r[0], r[1], name, st, viasuper=True)
        inst = self.opts.get("inst_inline", {}).get(base)
        if inst is not None and name in inst[1]:
            r = self.prog.lookup(inst[0], name)
            if r is not None and isinstance(r[1], ast.FunctionDef):
                return self.mkfunc(r[1], r[0].module, r[0], [], base)
        if base[0] == "inst" and name == "__class__":
            return ("class", self.selfcls[base].qual)
        if base in self.selfcls and self.selfcls[base] is not None:
            if name in self.opts.get("opaque_methods", ()):
                return ("attr", base, name)
            r = self.prog.lookup(self.selfcls[base], name)
            if r is None and self.strict and base[0] == "inst":
                r = self.mixin(self.selfcls[base], name)
            if r is not None:
                return self.member_value(r[0], r[1], name, base)
            if self.strict and base[0] == "inst" and not self.guards and not self.loops:
                raise SurelyFails("AttributeError: %s.%s" % (self.selfcls[base].name, name))
            return ("attr", base, name)
        if base[0] == "class":
            ci = self._class_by_qual(base[1])
            r = self.prog.lookup(ci, name) if ci else None
            if r is not None and isinstance(r[1], ast.FunctionDef) and not is_property(r[1]):
                fn = r[1]
                return self.mkfunc(fn, r[0].module, r[0], [], base if is_classmethod(fn) else None)
            if r is not None and isinstance(r[1], tuple):
                return self.module_const(r[0].module, r[1][1])
            return ("attr", base, name)
        if base[0] == "ite":
            a = self.get_attr(base[2], name)
            b = self.get_attr(base[3], name)
            return mk_ite(base[1], a, b)
        return ("attr", base, name)

    def _class_by_qual(self, q):
        mod, cn = q.split(":")
        m = self.prog.modules.get(mod)
        return m.classes.get(cn) if m else None

    def member_value(self, dc, member, name, selfterm, viasuper=False):
        leaf = ("attr", selfterm, name)
        if isinstance(member, tuple):
            v = self.module_const(dc.module, member[1])
            if selfterm[0] == "inst" and (v[0] not in ("func", "global") or self.strict and v[0] == "global"):
                return v
            if v[0] in ("func",):
                fv = self.funcs[v[1]]
                return self.mkfunc(fv.node, fv.module, dc, fv.env, selfterm)
            if v[0] in ("tuple",) or v[0] == "obj":
                return v
            if v[0] == "const" and (self.opts.get("class_consts") or name in self.opts.get("fold_consts", ())):
                return v
            if isinstance(member[1], ast.Name) and member[1].id in dc.members and member[1].id != name:
                # alias of another member:   po_Fr = po_A
                return self.member_value(dc, dc.members[member[1].id], member[1].id, selfterm)
            return leaf
        if not is_property(member):
            if is_static(member):
                return self.mkfunc(member, dc.module, dc, [], None)
            if is_classmethod(member):
                return self.mkfunc(member, dc.module, dc, [], ("class", dc.qual))
            return self.mkfunc(member, dc.module, dc, [], selfterm)
        if selfterm[0] == "inst":
            v = self.call_func(self.mkfunc(member, dc.module, dc, [], selfterm), [], [], None)
            if "property" not in deco_names(member) and not viasuper:
                self.store[(selfterm, name)] = v
            return v
        if viasuper:
            leaf = ("attr", ("superprop", dc.qual), name)
        # property: expand into a value when it is a pure alias / container
        key = (dc.qual, name, selfterm)
        if key in self._prop_cache:
            return self._prop_cache[key]
        if key in self._prop_active:
            return leaf
        if self.opts.get("noexpand") and name in self.opts["noexpand"]:
            return leaf
        params = member.args.args
        ndef = len(member.args.defaults)
        if len(params) > 1 and not self.opts.get("expand_defaults"):
            return leaf
        self._prop_active.add(key)
        self.muted += 1
        sg, sl = self.guards, self.loops
        sstore = dict(self.store)
        self.guards, self.loops = (), ()
        try:
            f = self.mkfunc(member, dc.module, dc, [], selfterm)
            v = self.call_func(f, [], [], None)
        except RecursionError:
            v = leaf
        finally:
            self.guards, self.loops = sg, sl
            self.muted -= 1
            self._prop_active.discard(key)
            self.store = sstore
        ok = self.acceptable(v, leaf)
        res = v if ok else leaf
        self._prop_cache[key] = res
        return res

    def acceptable(self, v, leaf):
        if v == NONE:
            return False
        if v[0] == "obj":
            return not self.heap[v[1]].taint
        if v[0] == "tuple":
            return True
        if v[0] == "attr" and _self_chain(v, self.selfcls):
            return True
        if v[0] == "new" and v[1].split(":")[-1] in ("DictKey", "FrequencyKey"):
            return not contains(v, lambda x: bool(x) and x[0] in ("opaque", "param", "phi", "phi_out", "exc"))
        if self.expand == "full":
            bad = ("new", "opaque", "param", "super", "superprop", "phi", "phi_out", "exc", "obj*")
            return not contains(v, lambda x: bool(x) and x[0] in bad)
        if v[0] == "const" and self.expand == "full":
            return True
        return False

    # ----------------------------------------------------------- statements
    def block(self, stmts):
        alive = True
        for st in stmts:
            alive = self.stmt(st)
            if not alive:
                break
        return alive

    def snapshot(self):
        return (dict(self.frames[-1].locals), dict(self.store))

    def restore(self, snap):
        self.frames[-1].locals = dict(snap[0])
        self.store = dict(snap[1])

    def merge(self, c, s1, s2):
        out = []
        for a, b in ((s1[0], s2[0]), (s1[1], s2[1])):
            m = {}
            for k in set(a) | set(b):
                if k in a and k in b:
                    m[k] = a[k] if a[k] == b[k] else mk_ite(c, a[k], b[k])
                else:
                    # defined on one side only: for attributes fall back to the leaf
                    v = a[k] if k in a else b[k]
                    if isinstance(k, tuple):
                        leaf = ("attr", k[0], k[1])
                        m[k] = mk_ite(c, v, leaf) if k in a else mk_ite(c, leaf, v)
                    else:
                        m[k] = v
            out.append(m)
        return tuple(out)

    def stmt(self, st):
        k = type(st).__name__
        f = getattr(self, "st_" + k, None)
        if f is None:
            return True
        r = f(st)
        return True if r is None else r

    def st_Pass(self, st):
        pass

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value)

    def st_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def st_AugAssign(self, st):
        op = OPS.get(type(st.op).__name__, "?")
        load = _as_load(st.target)
        cur = self.ev(load)
        v = self.ev(st.value)
        if cur[0] == "obj" and op in ("+", "|") and not self.heap[cur[1]].taint:
            self.heap_method(cur, "extend" if self.heap[cur[1]].kind == "list" else "update", [v], [], st)
            return
        self.assign(st.target, self.binop(op, cur, v), aug=(op, v))

    def assign(self, t, v, aug=None):
        if isinstance(t, ast.Name):
            self.frames[-1].locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.opaque("star"))
                else:
                    self.assign(e, self.get_item(v, C(i)))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            if base[0] == "attr" and base[2] == "own":
                base = base[1]
            if is_value(base) and base[1].setattr(self, t.attr, v):
                return
            self.emit("store", ("attr", base, t.attr), (v,), (("aug", ("const", aug[0])),) if aug else (), t)
            self.store[(base, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            key = self.ev_index(t.slice)
            if base[0] == "inst" and self.special(base, "__setitem__", [key, v]) is not None:
                return
            if is_value(base) and base[1].setitem(self, key, v):
                return
            if base[0] == "obj":
                h = self.heap[base[1]]
                if h.kind == "list" and is_const(key) and isinstance(key[1], int) and not h.taint and -len(h.items) <= key[1] < len(h.items) and all(not l and not g for _, l, g in h.items) and self.opts.get("objects"):
                    i = key[1] % len(h.items)
                    old = h.items[i][0]
                    h.items[i] = (mk_ite(mk_and(list(self.guards)), v, old) if self.guards else v, (), ())
                    return
                if h.kind == "dict":
                    self._put(h, key, v)
                    if self.opts.get("heap_effects"):
                        self.emit("setitem", base, (key, v), (), t)
                    return
                h.taint = True
            self.emit("setitem", base, (key, v), (("aug", ("const", aug[0])),) if aug else (), t)

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value)
                key = self.ev_index(t.slice)
                if base[0] == "obj" and self.exact and not self.guards and not self.loops and not self.heap[base[1]].taint and self.heap[base[1]].kind == "dict" \
                        and all(not x[-2] and _distinct(x[0], key) for x in self.heap[base[1]].items):
                    raise SurelyFails("KeyError: del of absent %s" % show(key)[:60])
                if base[0] == "obj" and self.exact and self._remove(self.heap[base[1]], key):
                    continue
                if base[0] == "obj":
                    self.heap[base[1]].taint = True
                self.emit("delitem", base, (key,), (), t)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value)
                self.store.pop((base, t.attr), None)
                self.emit("delattr", ("attr", base, t.attr), (), (), t)

    def st_Return(self, st):
        v = self.ev(st.value) if st.value is not None else NONE
        fr = self.frames[-1]
        fr.returns.append((self.guards, v))
        if self.exact:
            self._dead = "return"
        return False

    def st_Raise(self, st):
        v = self.ev(st.exc) if st.exc is not None else NONE
        self.emit("raise", v, (), (), st)
        self._dead = "raise"
        return False

    def st_Continue(self, st):
        self._dead = "loop"
        return False

    def st_Break(self, st):
        self._dead = "break" if self.exact else "loop"
        return False

    def st_Assert(self, st):
        c = self.truth(st.test)
        if not self.guards and (self.opts["asserted"](self, c) is False if self.opts.get("asserted") else self.exact and c == FALSE):
            raise SurelyFails("AssertionError: %s" % ast.unparse(st.test)[:80])
        self.emit("assert", c, (), (), st)

    def st_FunctionDef(self, st):
        fr = self.frames[-1]
        env = [fr.locals] + list(fr.closure)
        f = self.mkfunc(st, fr.module, fr.defclass, env, None)
        if self.opts.get("decorate"):
            for d in reversed(st.decorator_list):
                f = self.opts["decorate"](self, self.ev(d), f, d)
        fr.locals[st.name] = f

    def st_ClassDef(self, st):
        self.frames[-1].locals[st.name] = ("localclass", st.name)

    def st_Import(self, st):
        for a in st.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            self.frames[-1].locals[nm] = ("module", full) if full in self.prog.modules else ("global", full)

    def st_ImportFrom(self, st):
        fr = self.frames[-1]
        m = fr.module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if st.level:
            if st.level > 1:
                parts = parts[: len(parts) - (st.level - 1)]
            mod = ".".join(parts) + ("." + st.module if st.module else "")
        else:
            mod = st.module
        for a in st.names:
            r = self.prog.resolve_in_module(mod, a.name) if mod in self.prog.modules else None
            if r is None and mod + "." + a.name in self.prog.modules:
                r = ("module", mod + "." + a.name)
            t = self.from_resolved(r) or ("global", mod + "." + a.name)
            fr.locals[a.asname or a.name] = t

    def st_If(self, st):
        c = self.truth(st.test)
        if c == TRUE:
            return self.block(st.body)
        if c == FALSE:
            return self.block(st.orelse)
        return self.branch(c, st.body, st.orelse)

    def branch(self, c, body, orelse):
        saved = self.guards
        snap0 = self.snapshot()
        # already decided by the enclosing guards?
        catoms = atoms(c)
        if all(a in saved for a in catoms):
            return self.block(body)
        if all(a in saved for a in atoms(neg(c))):
            return self.block(orelse)
        self._dead = None
        self.guards = saved + tuple(a for a in catoms if a not in saved)
        g1_in = self.guards
        alive1 = self.block(body)
        dead1 = self._dead if not alive1 else None
        g1 = self.guards
        s1 = self.snapshot()
        self.restore(snap0)
        self._dead = None
        self.guards = saved + tuple(a for a in atoms(neg(c)) if a not in saved)
        g2_in = self.guards
        alive2 = self.block(orelse)
        dead2 = self._dead if not alive2 else None
        g2 = self.guards
        s2 = self.snapshot()
        if alive1 and alive2:
            self.restore(self.merge(c, s1, s2))
            if g1 == g1_in and g2 == g2_in:
                self.guards = saved
            else:
                r1 = mk_and([x for x in g1 if x not in saved])
                r2 = mk_and([x for x in g2 if x not in saved])
                self.guards = saved + atoms(mk_or([r1, r2]))
            return True
        if alive1:
            self.restore(s1)
            self.guards = saved if (dead2 == "raise" and g1 == g1_in) else g1
            return True
        if alive2:
            self.restore(s2)
            self.guards = saved if (dead1 == "raise" and g2 == g2_in) else g2
            return True
        self._dead = dead1 if dead1 == dead2 else None
        self.guards = saved
        return False

    def st_With(self, st):
        entered = []
        for item in st.items:
            v = self.ev(item.context_expr)
            if self.opts.get("enter"):
                entered.append(v)
                self.opts["enter"](self, v, "__enter__")
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
        try:
            return self.block(st.body)
        finally:
            for v in reversed(entered):
                self.opts["enter"](self, v, "__exit__")

    def _lookup_outcome(self, st):
        """True / False when the guarded statement is a lookup in a dictionary of known keys"""
        if not self.opts.get("objects") or not st.body:
            return None
        b = st.body[0]
        v = b.value if isinstance(b, (ast.Assign, ast.Expr, ast.Return)) else None
        subs = [n for n in ast.walk(v) if isinstance(n, ast.Subscript)] if v is not None else []
        if len(subs) != 1 or any(isinstance(n, (ast.Call, ast.BinOp)) for n in ast.walk(v)):
            return None
        base = self.ev(subs[0].value)
        if base[0] != "obj":
            return None
        h = self.heap[base[1]]
        if h.kind != "dict" or h.taint or h.default is not None:
            return None
        key = self.ev_index(subs[0].slice)
        if any(k == key and not g and not l for k, v_, l, g in h.items):
            return True
        if all(_distinct(k, key) for k, v_, l, g in h.items):
            return False
        return None

    def st_Try(self, st):
        hit = self._lookup_outcome(st)
        if hit and len(st.body) == 1 and not st.finalbody:
            alive = self.block(st.body)
            return self.block(st.orelse) if alive and st.orelse else alive
        if hit is False and not st.finalbody and st.handlers and (
                st.handlers[0].type is None or "KeyError" in ast.dump(st.handlers[0].type) or "LookupError" in ast.dump(st.handlers[0].type)):
            if st.handlers[0].name:
                self.frames[-1].locals[st.handlers[0].name] = ("excval", "KeyError")
            return self.block(st.handlers[0].body)
        snap0 = self.snapshot()
        saved = self.guards
        if self.exact and not self.guards and not self.loops:
            try:
                alive = self.block(st.body)
            except SurelyFails as e:
                kind = str(e).split(":")[0]
                kinds = {kind, "LookupError", "Exception", "BaseException"}
                self.guards, self.loops = saved, ()
                for h in st.handlers:
                    if h.type is None or any(isinstance(n, ast.Name) and n.id in kinds for n in ast.walk(h.type)):
                        if h.name:
                            self.frames[-1].locals[h.name] = ("excval", kind)
                        alive = self.block(h.body)
                        if st.finalbody:
                            return self.block(st.finalbody) and alive
                        return alive
                if st.finalbody:
                    self.block(st.finalbody)
                raise
            if not self.guards:
                if alive and st.orelse:
                    alive = self.block(st.orelse)
                if st.finalbody:
                    return self.block(st.finalbody) and alive
                return alive
        else:
            alive = self.block(st.body)
        if alive and st.orelse:
            alive = self.block(st.orelse)
        g_body = self.guards
        s = self.snapshot()
        for h in st.handlers:
            nm = ast.dump(h.type) if h.type is not None else "*"
            body_sig = ",".join(ast.dump(b) for b in st.body[:1])
            c = ("exc", nm, body_sig)
            self.restore(snap0)
            self.guards = saved + (c,)
            if h.name:
                self.frames[-1].locals[h.name] = ("excval", nm)
            a2 = self.block(h.body)
            s2 = self.snapshot()
            if a2 and alive:
                s = self.merge(c, s2, s)
            elif a2 and not alive:
                s = s2
                alive = True
                g_body = saved
        self.restore(s)
        self.guards = g_body
        if st.finalbody:
            if not self.block(st.finalbody):
                return False
        return alive

    def st_While(self, st):
        if self.exact:
            for _ in range(200):
                c = self.truth(st.test)
                if c == FALSE:
                    return self.block(st.orelse) if st.orelse else True
                if c != TRUE:
                    break
                sg = self.guards
                self._dead = None
                alive = self.block(st.body)
                if not alive and self.guards == sg and self._dead == "break":
                    return True
                if not alive and self.guards == sg and self._dead in (None, "raise", "return"):
                    return False
                self.guards = sg
        names = _assigned(st.body)
        self._havoc(names, ("while", getattr(st, "lineno", 0)))
        c = self.truth(st.test)
        saved, snap0 = self.guards, self.snapshot()
        self.guards = saved + tuple(a for a in atoms(c) if a not in saved)
        tok = self._newtok()
        self.loops = self.loops + ((("while",), c, tok),)
        self.block(st.body)
        self.loops = self.loops[:-1]
        self.guards = saved
        s1 = self.snapshot()
        self.restore(self.merge(("whileran", c), s1, snap0))
        return True

    def _havoc(self, names, tag):
        loc = self.frames[-1].locals
        before = {}
        for n in names:
            if n in loc:
                if loc[n][0] == "obj":
                    continue
                before[n] = loc[n]
                loc[n] = ("phi", n, tag)
        return before

    def _newtok(self):
        self._token += 1
        return self._token

    def st_For(self, st):
        it = self.ev(st.iter)
        r = self.for_each(it, st.target, lambda: self.block(st.body), _assigned(st.body))
        if r is False:
            return False
        if st.orelse and r != "broke":
            return self.block(st.orelse)
        return True

    def for_each(self, it, target, body, assigned):
        if it == NONE and self.exact and not self.guards and not self.loops:
            raise SurelyFails("TypeError: None is not iterable")
        elems = self.iter_concrete(it)
        if elems is not None:
            for term, loops, guards in elems:
                sg, sl = self.guards, self.loops
                term, loops, guards = self.rename_capture(term, loops, guards)
                self.loops = sl + tuple(l for l in loops if l not in sl)
                self.guards = sg + tuple(g for g in guards if g not in sg)
                if target is not None:
                    self.assign(target, term)
                gin = self.guards
                self._dead = None
                alive = body()
                stop = self.exact and alive is False and self.guards == gin == sg and self._dead in (None, "break", "raise", "return")
                self.guards, self.loops = sg, sl
                if stop:
                    return "broke" if self._dead == "break" else False
            return
        coll = self.coll_of(it)
        n = sum(1 for l in self.loops if l[1] == coll)
        elem = self.elem_of(coll, n)
        sg, sl = self.guards, self.loops
        before = self._havoc(assigned, coll)
        self.loops = sl + ((elem, coll, self._newtok()),)
        snap0 = self.snapshot()
        if target is not None:
            self.assign(target, elem)
        self._visited_rerun(coll, lambda: (self.restore(snap0), self.assign(target, elem) if target is not None else None), body)
        self.loops = sl
        self.guards = sg
        loc = self.frames[-1].locals
        for nme, b in before.items():
            phi = ("phi", nme, coll)
            after = loc.get(nme, phi)
            if after == phi:
                loc[nme] = b
            elif after[0] == "bin" and after[1] in ("+", "*") and phi in after[2:] and not contains(after[2] if after[3] == phi else after[3], lambda x: x == phi):
                inc = after[3] if after[2] == phi else after[2]
                loc[nme] = ("fold", after[1], b, inc, elem, coll)
            else:
                loc[nme] = ("phi_out", nme, coll, after)

    def _visited_rerun(self, coll, again, body):
        """Run a loop body; when it tests membership in a collection it also fills, run it once
        more with that membership open: later iterations see what earlier ones added."""
        mark = [(list(h.items), h.taint) for h in self.heap]
        ne, guards, loops = len(self.effects), self.guards, self.loops
        self.tested.append(set())
        body()
        tested = self.tested.pop()
        grown = {}
        for i in tested:
            if i < len(mark) and i not in self.grown and len(self.heap[i].items) > len(mark[i][0]):
                added = []
                for it_ in self.heap[i].items[len(mark[i][0]):]:
                    t = self.reify(it_[0])
                    if t not in added:
                        added.append(t)
                grown[i] = (coll, tuple(added))
        if grown:
            for i, (items, taint) in enumerate(mark):
                self.heap[i].items, self.heap[i].taint = items, taint
            del self.effects[ne:]
            self.guards, self.loops = guards, loops
            self.grown.update(grown)
            again()
            self.tested.append(set())
            body()
            tested |= self.tested.pop()
            for i in grown:
                del self.grown[i]
        if self.tested:
            self.tested[-1] |= tested - set(grown)

    def rename_capture(self, term, loops, guards):
        """A captured element must not collide with an active arbitrary element."""
        cur = set(self.loops)
        mp = {}
        newl = []
        for l in loops:
            if l in cur:
                newl.append(l)
                continue
            if any(x[0] == l[0] for x in self.loops):
                k = 0
                used = [x[0] for x in self.loops] + [x[0] for x in newl]
                while self.elem_of(l[1], k) in used:
                    k += 1
                ne = self.elem_of(l[1], k)
                mp[l[0]] = ne
                newl.append((ne, l[1], l[2]))
            else:
                newl.append(l)
        if mp:
            term = subst(term, mp)
            guards = tuple(subst(g, mp) for g in guards)
        return term, tuple(newl), guards

    def elem_of(self, coll, n):
        if coll[0] == "zip*":
            return ("tuple", tuple(self.elem_of(self.coll_of(c), n) for c in coll[1]))
        if coll[0] == "enumerate*":
            return ("tuple", (("idx", coll[1], n), self.elem_of(self.coll_of(coll[1]), n)))
        if coll[0] == "call" and coll[1][0] == "attr" and coll[1][2] == "items" and not coll[2]:
            X = coll[1][1]
            kx = ("elem", X, n)
            return ("tuple", (kx, ("item", X, kx)))
        if coll[0] == "call" and coll[1][0] == "attr" and coll[1][2] == "values" and not coll[2]:
            X = coll[1][1]
            return ("item", X, ("elem", X, n))
        return ("elem", coll, n)

    def coll_of(self, it):
        """Strip order-only wrappers from an abstract collection."""
        while True:
            if it[0] == "call" and it[1][0] == "global" and it[1][1] in (
                    "builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset",
                    "builtins.sorted", "builtins.iter", "builtins.reversed") and len(it[2]) >= 1:
                it = it[2][0]
                continue
            if it[0] == "call" and it[1][0] == "attr" and it[1][2] in ("keys", "copy") and not it[2]:
                it = it[1][1]
                continue
            return it

    def iter_concrete(self, it):
        """-> list of (term, loops, guards) or None when the collection is symbolic."""
        if is_value(it):
            r = it[1].iterate(self)
            return None if r is None else [(t, (), ()) for t in r]
        if it[0] == "ite":
            a, b = self.iter_concrete(it[2]), self.iter_concrete(it[3])
            if a is None or b is None:
                return None
            ga, gb = atoms(it[1]), atoms(neg(it[1]))
            if a == b:
                return a
            # common prefix stays unguarded
            out = []
            k = 0
            while k < len(a) and k < len(b) and a[k] == b[k]:
                out.append(a[k])
                k += 1
            out += [(t, l, tuple(g) + ga) for t, l, g in a[k:]]
            out += [(t, l, tuple(g) + gb) for t, l, g in b[k:]]
            return out
        if self.strict and it[0] == "inst":
            r = self.special(it, "__iter__", [])
            return None if r is None else self.iter_concrete(r)
        if it[0] == "tuple":
            if len(it[1]) > self.maxn:
                return None
            return [(x, (), ()) for x in it[1]]
        if it[0] == "obj":
            h = self.heap[it[1]]
            if h.taint or len(h.items) > self.maxn:
                return None
            if h.kind == "dict":
                return uniq([(k, l, g) for k, v, l, g in h.items])
            return uniq(h.items) if h.kind == "set" else list(h.items)
        if it[0] == "const" and isinstance(it[1], (str, tuple)) and len(it[1]) <= self.maxn:
            return [(C(x), (), ()) for x in it[1]]
        if it[0] == "dictitems":
            h = self.heap[it[1][1]]
            if h.taint or len(h.items) > self.maxn:
                return None
            live = [x for i, x in enumerate(h.items) if not (plain(x) and any(y[0] == x[0] and plain(y) for y in h.items[i + 1:]))]
            if it[2] == "items":
                return [(("tuple", (k, v)), l, g) for k, v, l, g in live]
            return [(v, l, g) for k, v, l, g in live]
        if it[0] == "zip*":
            cols = [self.iter_concrete(c) for c in it[1]]
            if any(c is None for c in cols):
                return None
            out = []
            for row in zip(*cols):
                l, g = [], []
                for t, ll, gg in row:
                    l += [x for x in ll if x not in l]
                    g += [x for x in gg if x not in g]
                out.append((("tuple", tuple(t for t, _, _ in row)), tuple(l), tuple(g)))
            return out
        if it[0] == "enumerate*":
            c = self.iter_concrete(it[1])
            if c is None:
                return None
            return [(("tuple", (C(i), t)), l, g) for i, (t, l, g) in enumerate(c)]
        if it[0] == "product*":
            cols = [self.iter_concrete(c) for c in it[1]]
            if any(c is None for c in cols):
                return None
            rows = [((), (), ())]
            for c in cols:
                rows = [(ts + (t,), ls + tuple(x for x in l if x not in ls), gs + tuple(x for x in g if x not in gs))
                        for ts, ls, gs in rows for t, l, g in c]
            if len(rows) > self.maxn:
                return None
            return [(("tuple", ts), ls, gs) for ts, ls, gs in rows]
        if it[0] == "range*":
            if all(is_const(x) and isinstance(x[1], int) for x in it[1]):
                r = range(*[x[1] for x in it[1]])
                if len(r) <= self.maxn:
                    return [(C(i), (), ()) for i in r]
            return None
        if it[0] == "concat*":
            out = []
            for c in it[1]:
                e = self.iter_concrete(c)
                if e is None:
                    return None
                out += e
            return out
        return None

    # ---------------------------------------------------------- expressions
    def truth(self, expr):
        c = self.as_cond(self.ev(expr))
        if c[0] != "const" and self.opts.get("decide"):
            d = self.opts["decide"](self, c)
            if d is not None:
                return C(d)
        return c

    def as_cond(self, t):
        if t[0] == "const":
            return C(bool(t[1]))
        if t[0] == "obj":
            h = self.heap[t[1]]
            if not h.taint:
                if not h.items:
                    return FALSE
                if any(not g and not (x[-2] if len(x) > 2 else ()) for x in h.items for g in [x[-1]]):
                    return TRUE
            return ("truth", t)
        if t[0] == "tuple":
            return C(bool(t[1]))
        if t[0] == "ite":
            a, b = self.as_cond(t[2]), self.as_cond(t[3])
            return mk_or([mk_and([t[1], a]), mk_and([neg(t[1]), b])])
        if t[0] in ("class", "func", "module", "self"):
            return TRUE
        if self.strict and t[0] == "inst":
            for n in ("__bool__", "__nonzero__", "__len__"):
                r = self.special(t, n, [])
                if r is not None:
                    return self.as_cond(r)
            return TRUE
        return t

    def ev(self, e):
        if e is None:
            return NONE
        f = getattr(self, "ev_" + type(e).__name__, None)
        if f is None:
            return self.opaque(type(e).__name__)
        return f(e)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return ("slice", self.ev(s.lower), self.ev(s.upper), self.ev(s.step))
        if type(s).__name__ == "Index":
            return self.ev(s.value)
        return self.ev(s)

    def ev_Slice(self, s):
        return self.ev_index(s)

    def ev_Constant(self, e):
        return C(e.value)

    def ev_Name(self, e):
        if e.id in ("True", "False", "None"):
            return C({"True": True, "False": False, "None": None}[e.id])
        return self.lookup_name(e.id)

    def ev_Attribute(self, e):
        return self.get_attr(self.ev(e.value), e.attr, e)

    def ev_Subscript(self, e):
        return self.get_item(self.ev(e.value), self.ev_index(e.slice))

    def get_item(self, base, key):
        if base[0] == "inst":
            r = self.special(base, "__getitem__", [key])
            if r is not None:
                return r
        if is_value(base):
            r = base[1].item(self, key)
            if r is not None:
                return r
        if base[0] == "tuple" and is_const(key) and isinstance(key[1], int):
            try:
                return base[1][key[1]]
            except IndexError:
                return self.opaque("index")
        if base[0] == "tuple" and key[0] == "slice" and all(is_const(x) for x in key[1:]):
            return ("tuple", base[1][slice(*[x[1] for x in key[1:]])])
        if base[0] == "ite":
            return mk_ite(base[1], self.get_item(base[2], key), self.get_item(base[3], key))
        if base[0] == "obj" and key[0] == "slice" and all(is_const(x) for x in key[1:]):
            h = self.heap[base[1]]
            if h.kind == "list" and not h.taint and all(not l and not g for _, l, g in h.items):
                n = self.new_heap("list")
                self.heap[n[1]].items = h.items[slice(*[x[1] for x in key[1:]])]
                return n
        if base[0] == "obj":
            h = self.heap[base[1]]
            if h.kind == "dict" and not h.taint:
                r = self._dict_lookup(h, key)
                if h.default is not None and (r is None or contains(r, lambda x: x == MISSING)):
                    kind = {("global", "builtins.dict"): "dict", ("global", "builtins.list"): "list",
                            ("global", "builtins.set"): "set"}.get(h.default)
                    if kind:
                        n = self.new_heap(kind)
                        h.items.append((key, n, self.loops, self.guards))
                        return n
                    if self.exact and r == MISSING and h.default[0] == "func" and not self.guards and not self.loops:
                        n = self.call(h.default, [], [], None)
                        self._put(h, key, n)
                        return n
                if r is None:
                    r = self._group_lookup(h, key)
                if self.exact and r == MISSING and h.default is None and not self.guards and not self.loops:
                    raise SurelyFails("KeyError: %s" % show(key)[:60])
                if r is not None:
                    return drop_missing(r)
                # symbolic key into fully constant table: keep the table
                if all(is_const(k) for k, v, l, g in h.items) and h.items:
                    return ("item", self.reify(base), key)
            if h.kind == "list" and not h.taint and is_const(key) and isinstance(key[1], int):
                if all(not l or all(x in self.loops for x in l) for _, l, g in h.items) and all(all(x in self.guards for x in g) for _, l, g in h.items):
                    try:
                        return h.items[key[1]][0]
                    except IndexError:
                        if self.strict and not self.guards and not self.loops:
                            raise SurelyFails("IndexError: [%d] of %d" % (key[1], len(h.items)))
            return ("item", base, key)
        if base[0] == "elem" and base[1][0] == "zip*" and is_const(key):
            return ("elem", base[1][1][key[1]], base[2])
        return ("item", base, key)

    def _dict_lookup(self, h, key):
        """Latest matching entry; None when aliasing between keys is undecided."""
        pend = []
        for k, v, l, g in reversed(h.items):
            if k == key:
                open_g = tuple(x for x in g if x not in self.guards)
                if not all(x in self.loops for x in l):
                    open_g = open_g + tuple(("inloop", x[1]) for x in l if x not in self.loops)
                pend.append((open_g, v))
                if not open_g:
                    break
            elif not _distinct(k, key):
                return None
        else:
            pend.append(((), MISSING))
        val = pend[-1][1]
        for g, v in reversed(pend[:-1]):
            g = tuple(x for x in g if x[0] != "inloop")
            val = mk_ite(mk_and(list(g)), v, val) if g else v
        return val

    def _put(self, h, key, v):
        """store in a dictionary; exact mode keeps one entry per known key"""
        if self.exact and not self.loops and not h.taint:
            for i, (k, old, l, g) in enumerate(h.items):
                if k != key:
                    continue
                if l or not all(_distinct(k2, key) for j, (k2, _, _, _) in enumerate(h.items) if j != i):
                    break
                if all(x in g for x in self.guards):
                    h.items[i] = (key, v, (), g)
                else:
                    new = mk_and(list(self.guards))
                    both = mk_or([new, mk_and(list(g))])
                    h.items[i] = (key, mk_ite(new, v, old), (), atoms(both))
                return
        h.items.append((key, v, self.loops, self.guards))

    def _remove(self, h, key):
        """remove a known member or key; False when it is not decided which"""
        if h.taint or self.loops or any(x[-2] for x in h.items):
            return False
        if not all(x[0] == key or _distinct(x[0], key) for x in h.items):
            return False
        out = []
        for x in h.items:
            if x[0] == key:
                open_g = [g for g in self.guards if g not in x[-1]]
                if not open_g:
                    continue
                x = x[:-1] + (tuple(x[-1]) + (neg(mk_and(open_g)),),)
            out.append(x)
        h.items = out
        return True

    def _add(self, h, t):
        """add to a set; exact mode keeps one entry per known member"""
        if self.exact and not self.loops and not h.taint:
            for i, (k, l, g) in enumerate(h.items):
                if k == t and not l:
                    if g:
                        h.items[i] = (k, (), atoms(mk_or([mk_and(list(g)), mk_and(list(self.guards))])))
                    return
        h.items.append((t, self.loops, self.guards))

    def _setop(self, op, a, b):
        """difference, intersection, union of known collections"""
        ca, cb = self.iter_concrete(a), self.iter_concrete(b)
        if ca is None or cb is None or any(l for _, l, g in ca + cb):
            return None
        if op in ("-", "&") and not all(x == y or _distinct(x, y) for x, _, _ in ca for y, _, _ in cb):
            return None
        n = self.new_heap("set")
        h = self.heap[n[1]]
        here = {t: mk_or([mk_and(list(g)) for u, _, g in cb if u == t]) for t, _, _ in cb}
        for t, _, g in ca:
            if op == "-":
                c = mk_and(list(g) + [neg(here.get(t, FALSE))])
            elif op == "&":
                c = mk_and(list(g) + [here.get(t, FALSE)])
            else:
                c = mk_or([mk_and(list(g)), here.get(t, FALSE)])
            if c != FALSE:
                h.items.append((t, (), atoms(c)))
        if op in ("|", "^"):
            h.items += [(t, (), atoms(here[t])) for t, _, _ in uniq(cb) if all(t != x for x, _, _ in h.items)]
        return n

    def _group_lookup(self, h, key):
        """d[k(x)].append(x) for x in coll, then d[key]: the members of coll with k(x) == key."""
        if not h.items:
            return None
        out = []
        for k, v, l, g in h.items:
            if not any(x not in self.loops for x in l):
                return None
            if v[0] != "obj" or self.heap[v[1]].kind not in ("list", "set") or self.heap[v[1]].taint:
                return None
            for t, tl, tg in self.heap[v[1]].items:
                out.append((t, tl, tuple(tg) + (self.compare("Eq", k, key),)))
        n = self.new_heap("list")
        self.heap[n[1]].items = out
        return n

    def ev_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    c = self.iter_concrete(self.ev(x.value))
                    if c is None:
                        return self.opaque("startuple")
                    parts += [t for t, l, g in c]
                else:
                    parts.append(self.ev(x))
            return ("tuple", tuple(parts))
        return ("tuple", tuple(self.ev(x) for x in e.elts))

    def ev_List(self, e, kind="list"):
        h = self.new_heap(kind)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                c = self.iter_concrete(self.ev(x.value))
                if c is None:
                    self.heap[h[1]].taint = True
                else:
                    self.heap[h[1]].items += c
            else:
                self.heap[h[1]].items.append((self.ev(x), (), ()))
        return h

    def ev_Set(self, e):
        return self.ev_List(e, "set")

    def ev_Dict(self, e):
        h = self.new_heap("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v)
                if src[0] == "obj" and not self.heap[src[1]].taint:
                    self.heap[h[1]].items += list(self.heap[src[1]].items)
                else:
                    self.heap[h[1]].taint = True
                continue
            self.heap[h[1]].items.append((self.ev(k), self.ev(v), (), ()))
        return h

    def comp(self, gens, add):
        base_l, base_g = self.loops, self.guards
        saved = dict(self.frames[-1].locals)

        def rec(i):
            if i == len(gens):
                add()
                return
            g = gens[i]
            it = self.ev(g.iter)

            def body():
                sg = self.guards
                for c in g.ifs:
                    t = self.truth(c)
                    if t == FALSE:
                        self.guards = sg
                        return
                    self.guards = self.guards + tuple(a for a in atoms(t) if a not in self.guards)
                rec(i + 1)
                self.guards = sg
            self.for_each(it, g.target, body, set())
        rec(0)
        self.frames[-1].locals = saved
        self.loops, self.guards = base_l, base_g

    def ev_ListComp(self, e, kind="list"):
        h = self.new_heap(kind)
        bl, bg = self.loops, self.guards

        def add():
            t = self.ev(e.elt)
            self.heap[h[1]].items.append((t, tuple(x for x in self.loops if x not in bl), tuple(x for x in self.guards if x not in bg)))
        self.comp(e.generators, add)
        return h

    def ev_SetComp(self, e):
        return self.ev_ListComp(e, "set")

    def ev_GeneratorExp(self, e):
        return self.ev_ListComp(e)

    def ev_DictComp(self, e):
        h = self.new_heap("dict")
        bl, bg = self.loops, self.guards

        def add():
            k, v = self.ev(e.key), self.ev(e.value)
            self.heap[h[1]].items.append((k, v, tuple(x for x in self.loops if x not in bl), tuple(x for x in self.guards if x not in bg)))
        self.comp(e.generators, add)
        return h

    def ev_Lambda(self, e):
        fr = self.frames[-1]
        return self.mkfunc(e, fr.module, fr.defclass, [fr.locals] + list(fr.closure), None)

    def ev_IfExp(self, e):
        c = self.truth(e.test)
        if c == TRUE:
            return self.ev(e.body)
        if c == FALSE:
            return self.ev(e.orelse)
        sg = self.guards
        self.guards = sg + tuple(a for a in atoms(c) if a not in sg)
        a = self.ev(e.body)
        self.guards = sg + tuple(x for x in atoms(neg(c)) if x not in sg)
        b = self.ev(e.orelse)
        self.guards = sg
        return mk_ite(c, a, b)

    def ev_BoolOp(self, e):
        if self.exact:
            out, isand = [], isinstance(e.op, ast.And)
            for x in e.values:
                v = self.ev(x)
                c = self.as_cond(v)
                if c[0] != "const" and self.opts.get("decide"):
                    d = self.opts["decide"](self, c)
                    c = c if d is None else C(d)
                if c == (FALSE if isand else TRUE) and not out:
                    return v
                if c != (TRUE if isand else FALSE):
                    out.append(c)
                elif x is e.values[-1] and not out:
                    return v
            return mk_and(out) if isand else mk_or(out)
        vals = [self.ev(v) for v in e.values]
        conds = [self.as_cond(v) for v in vals]
        if isinstance(e.op, ast.And):
            r = mk_and(conds)
        else:
            if len(vals) == 2 and vals[0][0] == "const" and not vals[0][1]:
                return vals[1]
            r = mk_or(conds)
        return r

    def ev_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return neg(self.truth(e.operand))
        v = self.ev(e.operand)
        if v[0] == "inst":
            r = self.special(v, "__neg__" if isinstance(e.op, ast.USub) else "__pos__" if isinstance(e.op, ast.UAdd) else "__invert__", [])
            if r is not None:
                return r
        if is_value(v):
            r = v[1].unop(self, "-" if isinstance(e.op, ast.USub) else "+" if isinstance(e.op, ast.UAdd) else "~")
            if r is not None:
                return r
        if isinstance(e.op, ast.USub):
            if v[0] == "const" and isinstance(v[1], NUMERIC):
                return C(-v[1])
            return ("un", "-", v)
        if isinstance(e.op, ast.UAdd):
            return v
        return ("un", "~", v)

    def ev_BinOp(self, e):
        return self.binop(OPS.get(type(e.op).__name__, "?"), self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        if a[0] == "inst" or b[0] == "inst":
            n = DUNDER.get(op)
            r = self.special(a, "__%s__" % n, [b])
            if r is None or r == ("global", "builtins.NotImplemented"):
                r = self.special(b, "__r%s__" % n, [a])
            if r is not None:
                return r
        if self.exact and NONE in (a, b) and not self.guards and not self.loops:
            raise SurelyFails("TypeError: arithmetic with None")
        for x, y, sw in ((a, b, False), (b, a, True)):
            if is_value(x):
                r = x[1].binop(self, op, y, sw)
                if r is not None:
                    return r
        if a[0] == "const" and b[0] == "const":
            try:
                x, y = a[1], b[1]
                if isinstance(x, NUMERIC) and isinstance(y, NUMERIC) and not isinstance(x, bool) and not isinstance(y, bool):
                    if op == "+":
                        return C(x + y)
                    if op == "-":
                        return C(x - y)
                    if op == "*":
                        return C(x * y)
                    if self.exact and op in ("//", "%") and isinstance(x, int) and isinstance(y, int) and y:
                        return C(x // y if op == "//" else x % y)
                if op == "+" and isinstance(x, str) and isinstance(y, str):
                    return C(x + y)
            except Exception:
                pass
        if self.exact and op in ("-", "&", "|") and all(x[0] == "obj" and self.heap[x[1]].kind in ("set", "dict") for x in (a, b)):
            r = self._setop(op, a, b)
            if r is not None:
                return r
        if self.exact and op == "*":
            for x, n in ((a, b), (b, a)):
                if n[0] == "const" and isinstance(n[1], int) and not isinstance(n[1], bool) and n[1] < 1000:
                    if x[0] == "tuple":
                        return ("tuple", x[1] * n[1])
                    c = self.iter_concrete(x) if x[0] == "obj" and self.heap[x[1]].kind == "list" else None
                    if c is not None:
                        h = self.new_heap("list")
                        self.heap[h[1]].items = list(c) * n[1]
                        return h
        if op == "+":
            if a[0] == "tuple" and b[0] == "tuple":
                return ("tuple", a[1] + b[1])
            ca = self.iter_concrete(a) if a[0] in ("obj", "tuple") else None
            cb = self.iter_concrete(b) if b[0] in ("obj", "tuple") else None
            if ca is not None and cb is not None:
                h = self.new_heap("list")
                self.heap[h[1]].items = list(ca) + list(cb)
                return h
        if op == "%" and a[0] == "const" and isinstance(a[1], str):
            return ("fmt", a, b)
        return ("bin", op, a, b)

    def ev_Compare(self, e):
        left = self.ev(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            out.append(self.compare(type(op).__name__, left, right))
            left = right
        return out[0] if len(out) == 1 else mk_and(out)

    def compare(self, op, a, b):
        if a[0] == "inst" or b[0] == "inst":
            n, m = CMPS.get(op, (None, None))
            r = self.special(a, n, [b]) if n else None
            if r is None and m:
                r = self.special(b, m, [a])
            if r is None and op == "NotEq":
                r = self.special(a, "__eq__", [b])
                r = None if r is None else neg(self.as_cond(r))
            if r is None and op in ("In", "NotIn"):
                r = self.special(b, "__contains__", [a])
                r = neg(self.as_cond(r)) if r is not None and op == "NotIn" else r
            if r is not None:
                return self.as_cond(r)
            if self.strict and op in ("In", "NotIn") and b[0] == "inst":
                c = self.iter_concrete(b)
                if c is not None:
                    x = mk_or([self.compare("Eq", a, t) for t, _, _ in c])
                    return neg(x) if op == "NotIn" else x
            if op in ("Is", "IsNot", "Eq", "NotEq") and (a[0] == b[0] == "inst" or a[0] in ("const",) or b[0] in ("const",)):
                return C((a == b) == (op in ("Is", "Eq")))
        if self.exact and op in ("Lt", "Gt", "LtE", "GtE") and a[0] == "obj" and self.heap[a[1]].kind == "list":
            c = self.iter_concrete(a)
            if c is not None and all(not l and not g for _, l, g in c) and b[0] != "obj":
                n = self.new_heap("list")
                self.heap[n[1]].items = [(self.compare(op, t, b), (), ()) for t, _, _ in c]
                return n
        if self.strict and op in ("Is", "IsNot"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "global" and x[1].split(".")[-1] in ("NOARG", "NotImplemented") and y[0] in ("const", "obj", "tuple", "inst"):
                    return C(op == "IsNot")
        if self.strict and op in ("Eq", "NotEq"):
            r = self.same_value(a, b)
            if r is not None:
                return neg(r) if op == "NotEq" else r
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            negp = op in ("IsNot", "NotEq")
            if a == b and a[0] not in ("opaque",):
                return C(not negp)
            if a[0] == "const" and b[0] == "const" and type(a[1]) == type(b[1]):
                return C((a[1] == b[1]) != negp)
            if a[0] in ("const", "tuple") and b[0] in ("const", "tuple") and _distinct(a, b) and "tuple" in (a[0], b[0]):
                return C(negp)
            if NONE in (a, b):
                o = b if a == NONE else a
                if o[0] in ("const", "obj", "tuple", "func", "new", "class", "self", "module"):
                    return C(negp)
                if self.exact and o[0] in ("bin", "un", "sym", "inst", "cmp"):
                    return C(negp)
                if o[0] == "ite":
                    c = mk_or([mk_and([o[1], self.compare("Is", o[2], NONE)]), mk_and([neg(o[1]), self.compare("Is", o[3], NONE)])])
                    return neg(c) if negp else c
            x, y = sorted((a, b), key=_key)
            t = ("cmp", "==", x, y)
            return ("not", t) if negp else t
        if self.exact and op in ("Lt", "Gt", "LtE", "GtE") and is_const(a) and is_const(b) and all(isinstance(x[1], (int, float)) for x in (a, b)):
            return C({"Lt": a[1] < b[1], "Gt": a[1] > b[1], "LtE": a[1] <= b[1], "GtE": a[1] >= b[1]}[op])
        if op == "Lt":
            return ("cmp", "<", a, b)
        if op == "Gt":
            return ("cmp", "<", b, a)
        if op == "LtE":
            return ("cmp", "<=", a, b)
        if op == "GtE":
            return ("cmp", "<=", b, a)
        if op in ("In", "NotIn"):
            bb = self.coll_of(b)
            if bb[0] in ("obj", "tuple") or is_value(bb):
                els = self.iter_concrete(bb)
                seen = None
                if bb[0] == "obj":
                    if self.tested:
                        self.tested[-1].add(bb[1])
                    if bb[1] in self.grown:
                        coll, added = self.grown[bb[1]]
                        seen = ("visited", coll, self.reify(a), added)
                        # what this iteration itself added before the test is part of the description
                        els = [x for x in els or () if self.reify(x[0]) not in added]
                if self.exact and els is not None and not seen and all(not l for _, l, g in els) and any(g for _, l, g in els):
                    c = mk_or([mk_and([self.compare("Eq", a, t)] + [x for x in g if x not in self.guards]) for t, _, g in els])
                    return neg(c) if op == "NotIn" else c
                if els is not None and all(not l and not g for _, l, g in els):
                    c = mk_or([self.compare("Eq", a, t) for t, _, _ in els] + ([seen] if seen else []))
                    return neg(c) if op == "NotIn" else c
                bb = self.reify(bb)
            t = ("cmp", "in", a, bb)
            return ("not", t) if op == "NotIn" else t
        return self.opaque("cmp")

    def same_value(self, a, b):
        """equality of built-in containers, element by element; None when not decided this way"""
        for x, y in ((a, b), (b, a)):
            if x[0] == "global" and x[1].split(".")[-1] in ("NOARG", "NotImplemented") and y[0] in ("const", "obj", "tuple", "inst"):
                return FALSE

        def kind(t):
            return "tuple" if t[0] == "tuple" else self.heap[t[1]].kind if t[0] == "obj" and not self.heap[t[1]].taint else "scalar" if is_const(t) else None
        k = kind(a)
        if k is None or kind(b) is None or k == kind(b) == "scalar":
            return None
        if k != kind(b):
            return FALSE
        if k == "dict":
            x, y = (self.iter_concrete(("dictitems", t, "items")) for t in (a, b))
        else:
            x, y = self.iter_concrete(a), self.iter_concrete(b)
        if x is None or y is None or any(l or g for _, l, g in x + y):
            return None
        x, y = [t for t, _, _ in x], [t for t, _, _ in y]
        if len(x) != len(y) and k != "set":
            return FALSE
        if k in ("tuple", "list"):
            return mk_and([self.compare("Eq", p, q) for p, q in zip(x, y)])

        def key(t):
            return t[1][0] if k == "dict" else t
        if any(key(p) != key(q) and not _distinct(key(p), key(q)) for i, p in enumerate(x + y) for q in (x + y)[:i]):
            return None
        if set(map(key, x)) != set(map(key, y)):
            return FALSE
        return TRUE if k == "set" else mk_and([self.compare("Eq", p[1][1], [q for q in y if key(q) == key(p)][0][1][1]) for p in x])

    def as_dict(self, t):
        """a mapping object as a dictionary"""
        keys = self.call(self.get_attr(t, "keys"), [], [], None)
        h = self.new_heap("dict")
        for k, l, g in self.iter_concrete(keys) or ():
            self.heap[h[1]].items.append((k, self.get_item(t, k), l, g))
        return h

    def sorted_by(self, c, kwargs):
        """sorted(c, key=, reverse=); None when not modelled"""
        kw = dict(kwargs)
        key, rev = kw.pop("key", NONE), kw.pop("reverse", FALSE)
        if kw or rev[0] != "const" or any(l or g for _, l, g in c):
            return None
        if rev[1]:
            c = list(reversed(c))
        if key != NONE:
            pairs = self.sort_items([(("tuple", (self.call(key, [t], [], None), C(i))), (), ()) for i, (t, _, _) in enumerate(c)])
            c = None if pairs is None else [c[p[0][1][1][1]] for p in pairs]
        else:
            c = self.sort_items(c)
        return list(reversed(c)) if c is not None and rev[1] else c

    def sort_items(self, c):
        """canonical order of a collection: natural where it is known, otherwise some fixed order of the elements"""
        order = self.opts.get("order")

        def rank(t):
            v = order(t) if order else None
            if v is not None:
                return (0, v, "")
            if is_const(t) and isinstance(t[1], (int, float)):
                return (0, t[1], "")
            if is_const(t) and isinstance(t[1], str):
                return (1, 0, t[1])
            if t[0] == "tuple":
                return (2, tuple(rank(x) for x in t[1]), "")
            return (3, 0, repr(self.reify(t)))
        try:
            return sorted(c, key=lambda x: rank(x[0]))
        except TypeError:
            return None

    def ev_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                parts.append(self.ev(v.value))
        if all(is_const(p) for p in parts):
            return C("".join(str(p[1]) for p in parts))
        return ("fmt", C("f"), ("tuple", tuple(parts)))

    def ev_Starred(self, e):
        return self.ev(e.value)

    def ev_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        fr = self.frames[-1]
        if fr.yields is not None:
            self.heap[fr.yields[1]].items.append((v, self.loops, self.guards))
        return NONE

    def ev_YieldFrom(self, e):
        v = self.ev(e.value)
        fr = self.frames[-1]
        if fr.yields is not None:
            def add(tok=[None]):
                pass
            tmp = {"t": None}
            el = self.iter_concrete(v)
            if el is not None:
                for t, l, g in el:
                    self.heap[fr.yields[1]].items.append((t, self.loops + tuple(l), self.guards + tuple(g)))
            else:
                coll = self.coll_of(v)
                n = sum(1 for l in self.loops if l[1] == coll)
                elem = self.elem_of(coll, n)
                self.heap[fr.yields[1]].items.append((elem, self.loops + ((elem, coll, self._newtok()),), self.guards))
        return NONE

    def ev_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def ev_Await(self, e):
        return self.ev(e.value)

    # ---------------------------------------------------------------- calls
    def ev_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fr = self.frames[-1]
            st = None
            for f in reversed(self.frames):
                a = getattr(f, "locals", {})
                node = None
                if f.defclass is not None:
                    st = f.locals.get("self", None)
                    if st is None and f.closure:
                        for env in f.closure:
                            if "self" in env:
                                st = env["self"]
                    fr = f
                    break
            if st is None:
                return ("super*",)
            return ("super", None, fr.defclass.qual, st)
        func = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                c = self.iter_concrete(v)
                if c is not None:
                    args += [t for t, l, g in c]
                else:
                    args.append(("star", v))
            else:
                args.append(self.ev(a))
        kwargs = []
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if v[0] == "obj" and self.heap[v[1]].kind == "dict" and not self.heap[v[1]].taint and all(is_const(x[0]) for x in self.heap[v[1]].items):
                    kwargs += [(x[0][1], x[1]) for x in self.heap[v[1]].items]
                else:
                    kwargs.append((None, v))
            else:
                kwargs.append((k.arg, v))
        return self.call(func, args, kwargs, e)

    def call(self, func, args, kwargs, node):
        t = func[0]
        if t == "inst":
            ci = self.selfcls.get(func)
            r = self.prog.lookup(ci, "__call__") if ci else None
            if r is not None and isinstance(r[1], ast.FunctionDef):
                return self.call_func(self.mkfunc(r[1], r[0].module, r[0], [], func), args, kwargs, node)
        if t == "func":
            fv = self.funcs[func[1]]
            if self.opts.get("fn_hook"):
                r = self.opts["fn_hook"](self, fv, args, kwargs, node)
                if r is not None:
                    return r
            if self.inline_filter(fv.module, fv.node, fv.defclass):
                return self.call_func(func, args, kwargs, node)
            f = ("fn", fv.module.name + ":" + (fv.defclass.name + "." if fv.defclass else "") + getattr(fv.node, "name", "<lambda>"))
            if fv.bound is not None:
                args = [fv.bound] + args
            self.emit("call", f, args, kwargs, node)
            return ("call", f, tuple(args), tuple(kwargs))
        if t == "ite":
            # call of a gated function value: apply on both sides
            sg = self.guards
            self.guards = sg + tuple(a for a in atoms(func[1]) if a not in sg)
            a = self.call(func[2], args, kwargs, node)
            self.guards = sg + tuple(a for a in atoms(neg(func[1])) if a not in sg)
            b = self.call(func[3], args, kwargs, node)
            self.guards = sg
            return mk_ite(func[1], a, b)
        if t == "attr" and func[1] == NONE and self.exact and not self.guards and not self.loops:
            raise SurelyFails("AttributeError: None.%s" % func[2])
        if t == "attr" and is_value(func[1]):
            r = func[1][1].method(self, func[2], list(args), list(kwargs))
            if r is not None:
                return r
        if t == "attr" and func[1][0] == "obj":
            return self.heap_method(func[1], func[2], args, kwargs, node)
        if t == "attr" and func[1] == ("super*",):
            return self.opaque("super")
        if t == "attr" and func[1][0] == "ite" and func[1][2][0] == "obj":
            return self.opaque("gatedheap")
        if t == "attr" and func[1][0] == "const" and isinstance(func[1][1], str) and func[2] == "format":
            if all(is_const(a) for a in args) and all(is_const(v) for _, v in kwargs):
                try:
                    return C(func[1][1].format(*[a[1] for a in args], **{k: v[1] for k, v in kwargs}))
                except Exception:
                    pass
            return ("fmt", func[1], ("tuple", tuple(args)))
        if t == "attr" and func[1][0] == "const" and isinstance(func[1][1], str):
            if all(is_const(a) for a in args) and func[2] in ("replace", "lower", "upper", "strip", "join"):
                try:
                    return C(getattr(func[1][1], func[2])(*[a[1] for a in args]))
                except Exception:
                    pass
        if t == "global":
            r = self.builtin(func[1], args, kwargs, node)
            if r is not None:
                return r
        if t == "class":
            if self.opts.get("new_hook"):
                r = self.opts["new_hook"](self, func[1], args, kwargs, node)
                if r is not None:
                    return r
            if self.opts.get("objects") and self.opts["objects"](func[1]):
                return self.make(func[1], args, kwargs, node)
            res = ("new", func[1], tuple(args), tuple(sorted(((k or "**"), v) for k, v in kwargs)))
            self.emit("new", func, args, kwargs, node)
            return self.reify_shallow(res)
        if self.opts.get("call_hook"):
            r = self.opts["call_hook"](self, func, args, kwargs, node)
            if r is not None:
                return r
        self.emit("call", func, args, kwargs, node)
        ra = tuple(self.reify(a) for a in args)
        rk = tuple(sorted(((k or "**"), self.reify(v)) for k, v in kwargs))
        return ("call", func, ra, rk)

    # -------------------------------------------------- objects of program classes
    def make(self, qual, args, kwargs, node=None):
        """a fresh object of a program class, its constructor analysed (opts["objects"])"""
        ci = self._class_by_qual(qual)
        new = self.prog.lookup(ci, "__new__")
        if new is not None and isinstance(new[1], ast.FunctionDef):
            f = self.mkfunc(new[1], new[0].module, new[0], [], ("class", qual))
            obj = self.call_func(f, args, kwargs, node)
            if obj not in self.selfcls:
                return obj
        else:
            obj = self.fresh(ci)
        init = self.method("__init__", obj, ci)
        if init is not None:
            self.call_func(init, args, kwargs, node)
        return obj

    def fresh(self, ci):
        obj = ("inst", ci.name, len(self.selfcls))
        self.selfcls[obj] = ci
        (PLAIN.add if self.prog.lookup(ci, "__eq__") is None else PLAIN.discard)(obj)
        return obj

    def special(self, obj, name, args):
        """result of a special method of an analysed object, None when it has none"""
        ci = self.selfcls.get(obj) if obj[0] == "inst" else None
        if ci is None:
            return None
        r = self.prog.lookup(ci, name)
        if r is None and self.strict:
            r = self.mixin(ci, name)
        while r is not None and isinstance(r[1], tuple) and isinstance(r[1][1], ast.Name) and r[1][1].id in r[0].members:
            r = (r[0], r[0].members[r[1][1].id])
        if r is None or not isinstance(r[1], ast.FunctionDef):
            return None
        return self.call_func(self.mkfunc(r[1], r[0].module, r[0], [], obj), list(args), [], None)

    def mixin(self, ci, name):
        """methods a class inherits from collections.Mapping"""
        for c in self.prog.mro(ci):
            for b in c.base_exprs:
                n = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else None
                imp = c.module.imports.get(n)
                if n is not None and ("Mapping" in n or imp and "Mapping" in str(imp)) and not self.prog.bases(c):
                    if name in MIXIN:
                        return c, MIXIN[name]
        return None

    def reify_shallow(self, t):
        return self.reify(t)

    def builtin(self, name, args, kwargs, node):
        short = name.split(".")[-1]
        if self.strict and name == "builtins.hash" and len(args) == 1:
            def hashed(t):
                if t[0] == "inst":
                    return self.special(t, "__hash__", []) or t
                if t[0] == "tuple":
                    return ("tuple", tuple(hashed(x) for x in t[1]))
                if t[0] == "obj" and self.heap[t[1]].kind == "set":
                    c = self.iter_concrete(t)
                    if c is not None and not any(l or g for _, l, g in c):
                        return ("frozen", tuple(sorted((hashed(x) for x, _, _ in c), key=repr)))
                if t[0] == "obj" and self.heap[t[1]].kind in ("list", "dict", "set") and not self.guards and not self.loops:
                    raise SurelyFails("TypeError: unhashable %s" % self.heap[t[1]].kind)
                return self.reify(t)
            h = hashed(args[0])
            return h if args[0][0] == "inst" and h != args[0] else ("call", ("global", name), (h,), ())
        if len(args) == 1 and args[0][0] == "inst" and name.startswith("builtins."):
            r = self.special(args[0], "__%s__" % short, [])
            if r is not None:
                return r
        if name == "builtins.type" and len(args) == 1 and not kwargs and args[0][0] == "inst" and self.selfcls.get(args[0]) is not None:
            return ("class", self.selfcls[args[0]].qual)
        if self.exact and self.strict and name == "builtins.hasattr" and len(args) == 2 and is_const(args[1]) and isinstance(args[1][1], str) \
                and (args[0][0] in ("inst", "sym", "const") or is_value(args[0])):
            try:
                v = self.get_attr(args[0], args[1][1], node)
                if v != ("attr", args[0], args[1][1]):
                    return C(True)
            except SurelyFails as ex:
                if str(ex).startswith("AttributeError"):
                    return C(False)
                raise
        if name == "builtins.slice" and 1 <= len(args) <= 3:
            return ("slice",) + tuple([NONE] + list(args) + [NONE] if len(args) == 1 else list(args) + [NONE] * (3 - len(args)))
        if name == "builtins.getattr" and len(args) >= 2 and is_const(args[1]):
            try:
                return self.get_attr(args[0], args[1][1], node)
            except SurelyFails as ex:
                if len(args) > 2 and str(ex).startswith("AttributeError"):
                    return args[2]
                raise
        if name == "builtins.getattr" and len(args) >= 2:
            return ("attr?", args[0], args[1])
        if name == "builtins.setattr" and len(args) == 3:
            if is_const(args[1]):
                self.emit("store", ("attr", args[0], args[1][1]), (args[2],), (), node)
                self.store[(args[0], args[1][1])] = args[2]
            else:
                self.emit("store", ("attr?", args[0], args[1]), (args[2],), (), node)
            return NONE
        if name in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.reversed", "builtins.iter"):
            kind = {"tuple": "list", "sorted": "list", "reversed": "list", "iter": "list", "frozenset": "set"}.get(short, short)
            if not args:
                return self.new_heap(kind) if short != "tuple" else ("tuple", ())
            c = self.iter_concrete(args[0])
            if c is not None:
                if short == "reversed":
                    c = list(reversed(c))
                if short == "sorted" and (self.strict or self.opts.get("order")):
                    c = self.sorted_by(c, kwargs)
                    if c is None:
                        return ("call", ("global", name), (self.reify(args[0]),), ())
                if short == "tuple" and all(not l and not g for _, l, g in c):
                    return ("tuple", tuple(t for t, _, _ in c))
                h = self.new_heap(kind)
                self.heap[h[1]].items = list(c)
                return h
            if short == "reversed":
                return ("reversed", args[0])
            if short == "set" or short == "frozenset":
                return ("call", ("global", name), tuple(args), ())
            return ("call", ("global", name), tuple(args), ())
        if name in ("builtins.dict", "collections.OrderedDict"):
            h = self.new_heap("dict")
            hh = self.heap[h[1]]
            if args:
                if self.strict and args[0][0] == "inst":
                    args = [self.as_dict(args[0])] + list(args[1:])
                if args[0][0] == "obj" and self.heap[args[0][1]].kind == "dict":
                    hh.items = list(self.heap[args[0][1]].items)
                    hh.taint = self.heap[args[0][1]].taint
                elif args[0][0] == "obj":
                    for t, l, g in self.heap[args[0][1]].items:
                        hh.items.append((self.get_item(t, C(0)), self.get_item(t, C(1)), l, g))
                else:
                    c = self.iter_concrete(args[0]) if self.exact else None
                    if c is None or any(t[0] != "tuple" or len(t[1]) != 2 for t, _, _ in c):
                        return ("call", ("global", name), tuple(args), ())
                    hh.items = [(t[1][0], t[1][1], l, g) for t, l, g in c]
            for k, v in kwargs:
                if k is None:
                    hh.taint = True
                else:
                    hh.items.append((C(k), v, (), ()))
            return h
        if name == "builtins.zip":
            return ("zip*", tuple(args))
        if name == "builtins.enumerate":
            return ("enumerate*", args[0])
        if name == "itertools.product":
            rep = dict(kwargs).get("repeat")
            if rep is not None and is_const(rep):
                args = args * rep[1]
            return ("product*", tuple(args))
        if name in ("itertools.chain",):
            return ("concat*", tuple(args))
        if name == "builtins.range":
            return ("range*", tuple(args))
        if name == "builtins.len":
            c = self.iter_concrete(args[0])
            if c is not None and all(not l and not g for _, l, g in c):
                return C(len(c))
            return ("call", ("global", name), (self.reify(args[0]),), ())
        if name == "builtins.isinstance":
            if self.opts.get("isinstance") and len(args) == 2:
                r = self.opts["isinstance"](self, args[0], args[1])
                if r is not None:
                    return C(r)
            if len(args) > 1 and args[1] in (("global", "builtins.list"), ("global", "builtins.tuple"), ("global", "builtins.dict"), ("global", "builtins.str")):
                want = args[1][1].split(".")[-1]
                a = args[0]
                if a[0] == "obj":
                    return C(self.heap[a[1]].kind == want)
                if a[0] == "tuple":
                    return C(want == "tuple")
                if a[0] == "const":
                    return C(type(a[1]).__name__ == want)
                if _portlike(a):
                    return C(False)
            if args[0][0] == "inst" and len(args) > 1:
                cl = [x[0] for x in self.iter_concrete(args[1])] if args[1][0] == "tuple" else [args[1]]
                mine = ["class"] and [("class", c.qual) for c in self.prog.mro(self.selfcls[args[0]])]
                if all(c[0] in ("class", "global") for c in cl):
                    return C(any(c in mine for c in cl))
            if self.strict and len(args) > 1 and args[0][0] in ("const", "obj", "tuple", "func") and not is_value(args[0]):
                cl = [x[0] for x in self.iter_concrete(args[1])] if args[1][0] == "tuple" else [args[1]]
                if all(c[0] == "class" for c in cl):
                    return FALSE
            return ("isinstance", args[0], self.reify(args[1]) if len(args) > 1 else NONE)
        if self.exact and name == "builtins.next" and args:
            c = self.iter_concrete(args[0])
            if c and not c[0][1] and all(g in self.guards for g in c[0][2]):
                return c[0][0]
        if name == "builtins.print" or name.endswith("pprint"):
            return NONE
        if name == "builtins.abs" and is_const(args[0]) and isinstance(args[0][1], NUMERIC):
            return C(abs(args[0][1]))
        if name == "builtins.sum" and len(args) >= 1:
            c = self.iter_concrete(args[0])
            if c is not None and all(not l and not g for _, l, g in c):
                tot = args[1] if len(args) > 1 else C(0)
                for t, _, _ in c:
                    tot = self.binop("+", tot, t)
                return tot
        if name in ("builtins.any", "builtins.all") and args:
            c = self.iter_concrete(args[0])
            if c is not None and all(not l for _, l, g in c):
                if short == "any":
                    return mk_or([mk_and([self.as_cond(t)] + list(g)) for t, l, g in c])
                return mk_and([mk_or([self.as_cond(t), neg(mk_and(list(g)))]) if g else self.as_cond(t) for t, l, g in c])
        if self.exact and name == "builtins.int" and len(args) == 1 and is_const(args[0]) and isinstance(args[0][1], float):
            return C(int(args[0][1]))
        if name in ("builtins.float", "builtins.complex", "builtins.int") and len(args) == 1 and is_const(args[0]):
            v = args[0][1]
            if isinstance(v, str) and short == "float":
                return ("floatstr", v)
            return args[0]
        if name == "collections.defaultdict":
            h = self.new_heap("dict")
            self.heap[h[1]].default = args[0] if args else None
            return h
        return None

    def _exact_method(self, obj, h, name, args):
        """removals and set algebra on known collections; None when not decided"""
        plainly = not h.taint and not self.loops and all(not x[-2] and all(g in self.guards for g in x[-1]) for x in h.items)
        if h.kind == "set" and name == "remove" and not self.guards and not self.loops and not h.taint and all(not x[-2] and _distinct(x[0], args[0]) for x in h.items):
            raise SurelyFails("KeyError: remove of absent %s" % show(args[0])[:60])
        if h.kind == "set" and name in ("remove", "discard"):
            return NONE if self._remove(h, args[0]) else None
        if h.kind == "set" and name == "update":
            for a in args:
                c = self.iter_concrete(a)
                if c is None or any(l for _, l, g in c):
                    return None
                for t, l, g in c:
                    sg = self.guards
                    self.guards = sg + tuple(x for x in g if x not in sg)
                    self._add(h, t)
                    self.guards = sg
            return NONE
        if h.kind == "list" and name == "index" and len(args) == 1 and plainly and self.strict:
            for i, (t, l, g) in enumerate(h.items):
                c = self.compare("Eq", t, args[0])
                if c == TRUE:
                    return C(i)
                if c != FALSE:
                    return None
            raise SurelyFails("ValueError: not in list")
        if name == "clear" and not self.loops and not self.guards:
            h.items, h.taint = [], False
            return NONE
        if h.kind == "set" and name in ("difference", "intersection", "union", "issubset", "issuperset"):
            op = {"difference": "-", "intersection": "&", "union": "|"}.get(name)
            if op:
                r = obj
                for a in args:
                    r = self._setop(op, r, a)
                    if r is None:
                        return None
                return r
            return None
        if name in ("pop", "popitem", "popleft") and plainly and h.items and not args and not [g for g in self.guards if any(g not in x[-1] for x in h.items)]:
            if h.kind == "set":
                h.items = uniq(h.items)
            x = h.items.pop(0 if h.kind == "set" or name == "popleft" else -1)
            return ("tuple", (x[0], x[1])) if name == "popitem" else x[0]
        if h.kind == "list" and name == "pop" and plainly and not self.guards and len(args) == 1 and is_const(args[0]) and -len(h.items) <= args[0][1] < len(h.items):
            return h.items.pop(args[0][1])[0]
        if h.kind == "list" and name == "remove" and plainly and not self.guards:
            for i, x in enumerate(h.items):
                if x[0] == args[0]:
                    del h.items[i]
                    return NONE
                if not _distinct(x[0], args[0]):
                    return None
        if h.kind == "dict" and name == "pop" and args:
            r = self._dict_lookup(h, args[0])
            if r is None:
                return None
            if len(args) > 1:
                r = subst(r, {MISSING: args[1]})
            elif r == MISSING and not self.guards and not self.loops:
                raise SurelyFails("KeyError: pop of absent %s" % show(args[0])[:60])
            if contains(r, lambda x: x == MISSING):
                r = drop_missing(r)
            return r if self._remove(h, args[0]) else None
        if h.kind == "dict" and name == "update" and len(args) == 1 and args[0][0] == "obj":
            e = self.iter_concrete(("dictitems", args[0], "items"))
            if e is None or any(l for _, l, g in e):
                return None
            for t, l, g in e:
                sg = self.guards
                self.guards = sg + tuple(x for x in g if x not in sg)
                self._put(h, t[1][0], t[1][1])
                self.guards = sg
            return NONE
        return None

    def heap_method(self, obj, name, args, kwargs, node):
        h = self.heap[obj[1]]
        if self.opts.get("heap_effects"):
            self.emit("call", ("attr", obj, name), args, kwargs, node)
        if h.kind in ("list", "set"):
            if name == "add":
                self._add(h, args[0])
                return NONE
            if name == "append":
                h.items.append((args[0], self.loops, self.guards))
                return NONE
            if self.exact:
                r = self._exact_method(obj, h, name, args)
                if r is not None:
                    return r
            if name in ("extend", "update"):
                for a in args:
                    c = self.iter_concrete(a)
                    if c is not None:
                        h.items += [(t, self.loops + tuple(x for x in l if x not in self.loops), self.guards + tuple(x for x in g if x not in self.guards)) for t, l, g in c]
                    else:
                        coll = self.coll_of(a)
                        n = sum(1 for l in self.loops if l[1] == coll)
                        elem = self.elem_of(coll, n)
                        h.items.append((elem, self.loops + ((elem, coll, self._newtok()),), self.guards))
                return NONE
            if name == "insert" and len(args) == 2:
                h.items.insert(0, (args[1], self.loops, self.guards))
                return NONE
            if name in ("copy",):
                n = self.new_heap(h.kind)
                self.heap[n[1]].items = list(h.items)
                self.heap[n[1]].taint = h.taint
                return n
            if name in ("union",):
                n = self.new_heap("set")
                self.heap[n[1]].items = list(h.items)
                self.heap[n[1]].taint = h.taint
                return self.heap_method(n, "update", args, kwargs, node) and n
            if name == "sort" and self.opts.get("order") and not h.taint:
                c = self.sorted_by(h.items, kwargs)
                if c is not None:
                    h.items = c
                    return NONE
            if name == "reverse" and self.exact and not h.taint:
                h.items = list(reversed(h.items))
                return NONE
            if name in ("sort", "reverse"):
                return NONE
            if name in ("index", "count", "__contains__"):
                return ("call", ("attr", self.reify(obj), name), tuple(args), ())
            h.taint = True
            return ("call", ("attr", ("obj*", obj[1]), name), tuple(args), ())
        # dict
        if self.strict and name == "update" and args and args[0][0] == "inst":
            args = [self.as_dict(args[0])] + list(args[1:])
        if self.exact:
            r = self._exact_method(obj, h, name, args)
            if r is not None:
                return r
        if name in ("items", "values"):
            return ("dictitems", obj, name)
        if name == "keys":
            return obj
        if name == "get":
            d = args[1] if len(args) > 1 else NONE
            if not h.taint:
                r = self._dict_lookup(h, args[0])
                if r is not None:
                    return subst(r, {MISSING: d})
                r = self._group_lookup(h, args[0])
                if r is not None:
                    return r
            v = self.get_item(obj, args[0])
            if v[0] == "item" and v[1] == obj:
                return ("call", ("attr", obj, "get"), tuple(args), ())
            return v
        if name == "setdefault":
            # possibly aliasing keys: a separate group, joined again by _group_lookup
            v = MISSING if h.taint else self._dict_lookup(h, args[0])
            if v is None or v[0] == "item" or v == MISSING:
                d = args[1] if len(args) > 1 else NONE
                h.items.append((args[0], d, self.loops, self.guards))
                return d
            return v
        if name == "update":
            for a in args:
                if a[0] == "obj" and self.heap[a[1]].kind == "dict":
                    h.items += [(k, v, self.loops + tuple(l), self.guards + tuple(g)) for k, v, l, g in self.heap[a[1]].items]
                elif a[0] in ("obj", "tuple") and self.iter_concrete(a) is not None:
                    for t, l, g in self.iter_concrete(a):
                        h.items.append((self.get_item(t, C(0)), self.get_item(t, C(1)), self.loops + tuple(l), self.guards + tuple(g)))
                else:
                    h.taint = True
            for k, v in kwargs:
                h.items.append((C(k), v, self.loops, self.guards))
            return NONE
        if name == "copy":
            n = self.new_heap("dict")
            self.heap[n[1]].items = list(h.items)
            self.heap[n[1]].taint = h.taint
            return n
        h.taint = True
        return ("call", ("attr", ("obj*", obj[1]), name), tuple(args), ())


MIXIN = dict((f.name, f) for f in ast.parse('''
def get(self, key, default=None):
    try:
        return self[key]
    except KeyError:
        return default
def __contains__(self, key):
    try:
        self[key]
    except KeyError:
        return False
    return True
def keys(self):
    return [k for k in self]
def items(self):
    return [(k, self[k]) for k in self]
def values(self):
    return [self[k] for k in self]
def __eq__(self, other):
    return dict(self.items()) == dict(other.items())
''').body)
CMPS = {"Lt": ("__lt__", "__gt__"), "Gt": ("__gt__", "__lt__"), "LtE": ("__le__", "__ge__"), "GtE": ("__ge__", "__le__"), "Eq": ("__eq__", "__eq__"), "NotEq": ("__ne__", "__ne__")}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "**": "pow", "%": "mod", "//": "floordiv", "|": "or", "&": "and", "^": "xor", "@": "matmul"}
OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Pow": "**", "Mod": "%", "FloorDiv": "//",
       "BitOr": "|", "BitAnd": "&", "BitXor": "^", "LShift": "<<", "RShift": ">>", "MatMult": "@"}


def drop_missing(t):
    """A subscript read presupposes presence."""
    if t[0] == "ite":
        a, b = drop_missing(t[2]), drop_missing(t[3])
        if a == MISSING:
            return b
        if b == MISSING:
            return a
        return mk_ite(t[1], a, b)
    return t


PLAIN = set()  # objects compared by identity


def _distinct(a, b):
    """Provably different dictionary keys: constants, or different declared ports."""
    if a[0] == b[0] == "inst" and a in PLAIN and b in PLAIN:
        return a != b
    if a[0] == "inst" and a in PLAIN and b[0] in ("const", "tuple") or b[0] == "inst" and b in PLAIN and a[0] in ("const", "tuple"):
        return True
    if is_const(a) and is_const(b):
        return a != b
    if a[0] == "tuple" and b[0] == "tuple":
        return len(a[1]) != len(b[1]) or any(_distinct(x, y) for x, y in zip(a[1], b[1]))
    if _portlike(a) and _portlike(b):
        return a != b
    if {a[0], b[0]} == {"const", "tuple"}:
        return True
    for x, y in ((a, b), (b, a)):
        if is_const(x) and _portlike(y, 2) and (y[2] in ("i", "o") or isinstance(x[1], str)):
            return True
    return False


def _portlike(t, least=1):
    """A chain of attributes on self (aliases are already resolved): one declared object."""
    n = 0
    while t[0] == "attr":
        t = t[1]
        n += 1
    return n >= least and t[0] == "self"


def _self_chain(t, selfcls):
    while t[0] == "attr":
        t = t[1]
    return t in selfcls


def _has_yield(fn):
    r = getattr(fn, "_sa_yields", None)
    if r is None:
        r = fn._sa_yields = _has_yield_(fn)
    return r


def _has_yield_(fn):
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def _assigned(stmts):
    out = set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if hasattr(n, "name"):
                out.add(n.name)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        stack.extend(ast.iter_child_nodes(n))
    return out


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
    return t


def show(t, depth=0):
    """Human-readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "const":
        return repr(t[1])
    if k == "self":
        return "self"
    if k in ("param",):
        return t[1]
    if k == "global":
        return t[1].replace("builtins.", "")
    if k == "module":
        return t[1]
    if k == "class":
        return t[1].split(":")[-1]
    if k == "attr":
        return show(t[1]) + "." + t[2]
    if k == "item":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "call":
        return "%s(%s)" % (show(t[1]), ", ".join([show(a) for a in t[2]] + ["%s=%s" % (a, show(b)) for a, b in t[3]]))
    if k == "new":
        return "%s(%s)" % (t[1].split(":")[-1], ", ".join([show(a) for a in t[2]] + ["%s=%s" % (a, show(b)) for a, b in t[3]]))
    if k == "bin":
        return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
    if k == "un":
        return "(%s%s)" % (t[1], show(t[2]))
    if k == "cmp":
        return "%s %s %s" % (show(t[2]), t[1], show(t[3]))
    if k == "not":
        return "not(%s)" % show(t[1])
    if k in ("and", "or"):
        return "(" + (" %s " % k).join(show(x) for x in t[1]) + ")"
    if k == "ite":
        return "(%s if %s else %s)" % (show(t[2]), show(t[1]), show(t[3]))
    if k == "elem":
        return "each%s<%s>" % ("'" * t[2], show(t[1]))
    if k == "tuple":
        return "(" + ", ".join(show(x) for x in t[1]) + ")"
    if k in ("list", "set"):
        return "[" + ", ".join(show(x) for x in t[1]) + "]"
    if k == "dict":
        return "{" + ", ".join("%s: %s" % (show(a), show(b)) for a, b in t[1]) + "}"
    return "<%s>" % " ".join(show(x) if isinstance(x, tuple) else str(x) for x in t)
