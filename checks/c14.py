"""C14: parameters given with a unit read back in every unit with the same physical value."""
import ast
import os
import re
import traceback

from sa.algebra import NotAlgebraic
from sa.evalterm import Point
from sa.interp import C, FALSE, Frame, NONE, TRUE, SurelyFails, Value, is_const, is_value, show
from sa.loader import AnalysisBroken, deco_names
from sa.objects import Unreadable, World
from checks.c08 import Bunch

BAD = (NotAlgebraic, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, Unreadable, StopIteration, ArithmeticError)
EXPLANATION = (
    "Every parameter declared with units (and every unitless one) is found in the source; its declaration is interpreted with an abstract attribute group, the "
    "settings tree and the unit registry being modelled by their documented behaviour.  For every accepted spelling, every other way of giving the value, defaults, replicas, "
    "settings given beforehand and values put by a fit, the parameter is read in every unit and compared with the physical value the spelling means.")
ASSUMPTIONS = ["unit names and prefixes mean what the SI (and inch, foot, pound, degree) say", "the settings tree resolves layers as the declarative library documents",
               "attribute groups run their set-up once with the values given and then the reader of the spelling asked"]
MUA = "phasor.base.multi_unit_args"
SU = "phasor.base.simple_units"
GENERATORS = ("generate_refval_attribute", "unitless_refval_attribute", "arbunit_refval_attribute")

PREFIX = {"": 1., "a": 1e-18, "f": 1e-15, "p": 1e-12, "n": 1e-9, "u": 1e-6, "m": 1e-3, "c": 1e-2, "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12}
UNITS = {"m": (1., "m"), "s": (1., "s"), "g": (1., "g"), "ohm": (1., "ohm"), "F": (1., "F"), "H": (1., "H"), "rad": (1., ""), "Hz": (1., "Hz"), "W": (1., "W")}
FIXED = {"deg": (3.141592653589793 / 180, ""), "in": (.0254, "m"), "ft": (.3048, "m"), "lb": (453.59237, "g"), "dimensionless": (1., ""), "meter": (1., "m"), "val": (1., ""),
         "second": (1., "s"), "watt": (1., "W"), "hertz": (1., "Hz"), "radian": (1., ""), "degree": (3.141592653589793 / 180, ""), "inch": (.0254, "m"), "foot": (.3048, "m")}


def parse_unit(name, ours=False):
    """(size, dimension) of one unit name; the names of parameters write ohm with a capital"""
    if ours and name.endswith("Ohm"):
        name = name[:-3] + "ohm"
    if name in FIXED:
        return FIXED[name] if ours or name != "val" else None
    for u, (s, d) in UNITS.items():
        if name.endswith(u) and name[:-len(u)] in PREFIX:
            return s * PREFIX[name[:-len(u)]], d
    return None


class U(Value):
    """units of the registry"""

    def __init__(self, size, dim, name):
        self.size, self.dim, self.name = size, dim, name

    def __repr__(self):
        return "unit(%s)" % self.name

    def quantity(self):
        return Q(C(1), self)

    def binop(self, it, op, other, swapped):
        return self.quantity().binop(it, op, other, swapped)


class Q(Value):
    """a quantity of the registry: number times units"""

    def __init__(self, mag, unit):
        self.mag, self.unit = mag, unit

    def __repr__(self):
        return "quantity(%s %s)" % (show(self.mag)[:20], self.unit.name)

    def attr(self, it, name):
        if name in ("magnitude", "m"):
            return self.mag
        if name in ("units", "u"):
            return C(self.unit)
        if name == "unitless":
            return C(self.unit.dim == "")
        if name in ("val", "ref"):
            raise SurelyFails("AttributeError: a quantity has no attribute %s" % name)
        return None

    def method(self, it, name, args, kw):
        if name in ("to", "m_as") and len(args) == 1:
            t = args[0][1] if is_value(args[0]) else None
            t = t.unit if isinstance(t, Q) else t
            if not isinstance(t, U):
                return None
            if t.dim != self.unit.dim:
                raise SurelyFails("DimensionalityError: %s to %s" % (self.unit.name, t.name))
            r = it.binop("*", self.mag, C(self.unit.size / t.size)) if self.mag != C(1) else C(self.unit.size / t.size)
            return r if name == "m_as" else C(Q(r, t))
        if name == "to_base_units":
            return C(Q(it.binop("*", self.mag, C(self.unit.size)), U(1., self.unit.dim, self.unit.dim)))
        return None

    def binop(self, it, op, other, swapped):
        o = other[1] if is_value(other) else None
        o = o.quantity() if isinstance(o, U) else o
        if isinstance(o, Q):
            if op != "/":
                return None
            a, b = (o, self) if swapped else (self, o)
            dim = "" if a.unit.dim == b.unit.dim else "%s/%s" % (a.unit.dim, b.unit.dim)
            mag = a.mag if b.mag == C(1) else C(a.mag[1] / b.mag[1]) if is_const(a.mag) and is_const(b.mag) else ("bin", "/", a.mag, b.mag)
            return C(Q(mag, U(a.unit.size / b.unit.size, dim, "%s / %s" % (a.unit.name, b.unit.name))))
        if op == "*":
            return C(Q(other if self.mag == C(1) else it.binop("*", self.mag, other), self.unit))
        if op == "/" and not swapped:
            return C(Q(("bin", "/", self.mag, other), self.unit))
        if op == "/" and o is None:
            u = self.unit
            return C(Q(("bin", "/", other, self.mag), U(1 / u.size, "1/" + u.dim if u.dim else "", "1 / " + u.name)))
        return None


class Registry(Value):
    def attr(self, it, name):
        if name in ("Quantity", "Unit"):
            return ("global", "pint." + name)
        if name == "dimensionless":
            return C(U(1., "", "dimensionless"))
        if name in ("method", "parse_expression", "__call__", "parse_units"):
            return None
        u = parse_unit(name)
        return C(U(u[0], u[1], name)) if u else None

    def method(self, it, name, args, kw):
        if name in ("parse_expression", "parse_units", "__call__", "Quantity") and len(args) == 1:
            if is_value(args[0]) and isinstance(args[0][1], (Q, U)):
                return args[0]
            if not is_const(args[0]) or not isinstance(args[0][1], str):
                raise Unreadable("units %s" % show(args[0])[:60])
            return C(parse(args[0][1]))
        return None


def parse(text):
    m = re.match(r"^\s*(?:([-+0-9.e]+)\s*\*?\s*)?([A-Za-z]+)\s*$", text)
    u = m and parse_unit(m.group(2))
    if not u:
        raise SurelyFails("UndefinedUnitError: %s" % text)
    return Q(C(float(m.group(1)) if m.group(1) else 1), U(u[0], u[1], m.group(2)))


class Tree(Value):
    """settings tree: layers of nested dictionaries, looked up in order; written into one of them"""
    NAMES = {"full": 0, "immed": 1, "immediate": 1, "prev": 2, "previous": 2}

    def __init__(self, layers, path=(), idx=0):
        self.layers, self.path, self.idx = layers, path, idx

    def __repr__(self):
        return "settings%r" % (self.path,)

    def node(self, layer, make=False):
        d = layer
        for k in self.path:
            if k not in d:
                if not make:
                    return None
                d[k] = {}
            d = d[k]
            if not isinstance(d, dict):
                return None
        return d

    def read(self, key):
        """value, or None when there is none (then a subtree is meant)"""
        for layer in self.layers:
            d = self.node(layer)
            if d is not None and key in d:
                if not isinstance(d[key], dict):
                    return d[key]
        return None

    def item(self, it, key):
        if not is_const(key):
            raise Unreadable("settings key")
        v = self.read(key[1])
        return v if v is not None else C(Tree(self.layers, self.path + (key[1],), self.idx))

    def attr(self, it, name):
        if name in ("setdefault", "get", "useidx", "keys", "items", "values", "has_key", "extractidx"):
            return None
        return self.item(it, C(name))

    def write(self, key, v):
        d = self.node(self.layers[self.idx], True)
        if d is None:
            raise SurelyFails("TypeError: a value stands where the settings %s are" % "/".join(self.path))
        if self.idx < 2 and key in d and not (isinstance(d[key], dict) and not d[key]):
            return          # these layers keep the first value
        d[key] = v

    def setattr(self, it, name, v):
        self.write(name, v)
        return True

    def setitem(self, it, key, v):
        self.write(key[1], v)
        return True

    def iterate(self, it):
        ks = []
        for layer in self.layers:
            for k in self.node(layer) or ():
                if C(k) not in ks:
                    ks.append(C(k))
        return ks

    def method(self, it, name, args, kw):
        if name == "useidx":
            i = args[0][1]
            return C(Tree(self.layers, self.path, self.NAMES[i] if isinstance(i, str) else i))
        if name == "get":
            if self.read(args[0][1]) is None and args[0] not in self.iterate(it):
                if len(args) < 2:
                    raise SurelyFails("KeyError: %s" % show(args[0]))
                return args[1]
            return self.item(it, args[0])
        if name == "setdefault":
            v = self.read(args[0][1])
            if v is not None:
                return v
            self.write(args[0][1], args[1])
            return args[1]
        if name == "has_key":
            return C(args[0] in self.iterate(it))
        return None


class Desc(Value):
    """declaration of one group of attributes"""

    def __init__(self, name):
        self.name, self.stem_names, self.setup_fn, self.construct_fn = name, (), None, None
        self.group, self.registries, self.made = {}, {}, 0

    def __repr__(self):
        return "declaration(%s)" % self.name

    def attr(self, it, name):
        return C(self.name) if name == "__name__" else None

    def setattr(self, it, name, v):
        if name == "__name__" and is_const(v):
            self.name = v[1]
        return True

    def method(self, it, name, args, kw):
        kw = dict(kw)
        if name == "stems":
            self.stem_names = tuple(a[1] for a in args)
            return NONE
        if name == "setup":
            self.setup_fn = args[0]
            return args[0]
        if name == "construct":
            self.construct_fn = args[0]
            return args[0]
        if name == "default":
            return args[0]
        if name in ("mproperty", "dproperty"):
            if not args:
                return C(Pending(self, kw))
            stem, nm = kw.pop("stem", None), kw.pop("name", None)
            if stem is not None:
                fmt = {k: v[1] for k, v in kw.items() if is_const(v)}
                names = ([nm[1]] if nm is not None else []) + [stem[1].format(stem=s, name=nm and nm[1], **fmt) for s in self.stem_names]
            else:
                names = [nm[1] if nm is not None else it.funcs[args[0][1]].node.name]
            for k, v in kw.items():
                self.registries.setdefault(k, {})[names[0]] = v
            for n in names:
                self.group[n] = (names[0], args[0])
            return args[0]
        return None


class Pending(Value):
    def __init__(self, desc, kw):
        self.desc, self.kw = desc, kw


class Host(Value):
    """an element that has the attribute"""

    def __init__(self, lab, tree, path, proto=None, defaults=None):
        self.lab, self.tree, self.path, self.proto, self.defaults = lab, tree, path, proto, defaults or {}

    def __repr__(self):
        return "element(%s)" % "/".join(self.path)

    def attr(self, it, name):
        if name == "ctree":
            return C(Tree(self.tree, self.path))
        if name == "inst_prototype_t":
            return C("full" if self.proto else None)
        if name == "inst_prototype":
            return C(self.proto) if self.proto else NONE
        if name == "name_child":
            return C(self.path[-1]) if self.path else NONE
        if name == "parent":
            return C(Host(self.lab, self.tree, self.path[:-1])) if self.path else NONE
        if name == "root":
            return C(self) if not self.path else C(Host(self.lab, self.tree, ()))
        if name in self.defaults:
            v = self.defaults[name]
            return v() if callable(v) else v
        raise SurelyFails("AttributeError: %s" % name)

    def __eq__(self, o):
        return isinstance(o, Host) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


def S(n):
    return ("sym", n)


class Lab:
    def __init__(self, prog):
        self.prog = prog
        self.values = {"v": 1.7, "r": 0.6, "v2": -2.3, "r2": 4.1, "k": 3.25, "w": 5.5}
        self.base = Point(1, {S(k): (complex(v),) for k, v in self.values.items()}, width=1)
        self.w = World(prog, objects=["SimpleUnitfulGroup", "ElementRefValue", "UnitlessElementRefValue"], exact=True, strict=True, decide=self.decide, calls=self.calls,
                       values=("UnitRegistry", "units_map"), recursion=6)
        it = self.w.it
        it.opts["decorate"] = self.decorate
        it.opts["isinstance"] = self.isinstance
        it.opts["new_hook"] = self.new
        it.opts["attr"] = self.attr
        self.registry = C(Registry())

    # ---------------------------------------------------------- hooks
    def decide(self, it, cond):
        if cond[0] == "not":
            d = self.decide(it, cond[1])
            return None if d is None else not d
        if cond[0] == "cmp":
            a, b = cond[2:4]
            for x, y in ((a, b), (b, a)):
                if x == NONE and y != NONE and cond[1] in ("is", "=="):
                    return False
                if x[0] == "global" and x[1].split(".")[-1] in ("NOARG", "Quantity", "Unit") and y != x and cond[1] in ("is", "==") and y[0] != "ite":
                    return False
            if cond[1] in ("is", "==") and all(x[0] in ("sym", "const", "bin") for x in (a, b)) and a[0] != b[0] and "const" in (a[0], b[0]):
                if any(is_value(x) for x in (a, b)):
                    return False
            if cond[1] in ("is",) and a[0] in ("sym", "bin", "un") and b[0] in ("sym", "bin", "un"):
                return a == b
        try:
            return self.base.cond(cond)
        except (NotAlgebraic, KeyError):
            return None

    def attr(self, it, t, name):
        """plain numbers have no such attributes"""
        if t[0] in ("sym", "bin", "un") and name not in ("real", "imag"):
            raise SurelyFails("AttributeError: a number has no attribute %s" % name)
        return None

    def decorate(self, it, dec, f, node):
        name = dec[2] if dec[0] == "attr" else dec[1].split(".")[-1] if dec[0] == "global" else ""
        if dec[0] == "attr" and is_value(dec[1]) and isinstance(dec[1][1], Desc):
            dec[1][1].method(it, name, [f], [])
            return f
        if is_value(dec) and isinstance(dec[1], Pending):
            dec[1].desc.method(it, "mproperty", [f], list(dec[1].kw.items()))
            return f
        if name in ("group_dproperty", "dproperty_adv_group", "dproperty_adv", "group_mproperty", "mproperty_adv_group", "mproperty_adv"):
            d = Desc(it.funcs[f[1]].node.name)
            it.call(f, [C(d)], [], None)
            return C(d)
        return f

    def isinstance(self, it, x, cls):
        classes = [t[0] for t in it.iter_concrete(cls)] if cls[0] in ("tuple", "obj") else [cls]
        names = {c[1].split(":")[-1].split(".")[-1] for c in classes if c[0] in ("class", "global")}
        if x[0] == "inst":
            ci = it.selfcls.get(x)
            return any(c.name in names for c in self.prog.mro(ci)) if ci else None
        if is_value(x):
            kind = {Q: {"Quantity"}, U: {"Unit"}, Tree: {"Mapping", "ShadowBunch", "MutableMapping"}}.get(type(x[1]), set())
            return bool(kind & names)
        if is_const(x):
            return bool({type(x[1]).__name__} & names) or (x[1] is not None and not isinstance(x[1], str) and "Number" in names)
        if x[0] in ("sym", "bin", "un"):
            return bool(names & {"float", "Number", "Real"})
        return None

    def calls(self, w, func, args, kw):
        name = func[1] if func[0] == "global" else ""
        short = name.split(".")[-1]
        if short == "UnitRegistry":
            return self.registry
        if short in ("Bunch", "FrozenBunch"):
            return C(Bunch(dict(kw)))
        if short == "str" and len(args) == 1:
            x = args[0]
            if is_const(x) and isinstance(x[1], str):
                return x
            if is_value(x) and isinstance(x[1], U):
                return C(x[1].name)
            if is_value(x) and isinstance(x[1], Q):
                if is_const(x[1].mag):
                    return C("%s %s" % (x[1].mag[1], x[1].unit.name))
                raise Unreadable("text of a symbolic quantity")
        return None

    def new(self, it, qual, args, kw, node):
        """objects whose attributes are declared by properties taking the value given"""
        cls = qual.split(":")[-1]
        ci = next((c for c in self.prog.all_classes() if c.qual == qual), None)
        if ci is None or not any(c.name == "SimpleUnitfulGroup" for c in self.prog.mro(ci)):
            return None
        obj = it.fresh(ci)
        for k, v in kw:
            r = self.prog.lookup(ci, k)
            if r is not None and isinstance(r[1], ast.FunctionDef) and len(r[1].args.args) > 1:
                v = it.call_func(it.mkfunc(r[1], r[0].module, r[0], [], obj), [v], [], None)
            it.store[(obj, k)] = v
        if cls != "SimpleUnitfulGroup" and getattr(self, "host", None) is not None:
            it.store[(obj, "parent")] = C(self.host)
            it.store[(obj, "root")] = self.host.attr(it, "root")
            it.store[(obj, "name_system")] = C("name")
            it.store[(obj, "inst_prototype_t")] = NONE
        return obj

    def forget(self):
        """effects of earlier questions"""
        del self.w.it.effects[:]
        for k in [k for k in self.w.it.store if k[0][0] == "inst"]:
            del self.w.it.store[k]

    # ---------------------------------------------------------- declarations and parameters
    def number(self, t):
        if t == NONE:
            return None
        return self.base.vec(self.base(t))[0]

    def declare(self, module, cls, node):
        """the declaration of an attribute: assigned from a generator, or a decorated function"""
        it = self.w.it
        ci = cls
        it.frames.append(Frame(module, None, [{}]))
        try:
            if isinstance(node, ast.FunctionDef):
                it.frames[-1].locals.clear()
                it.st_FunctionDef(node)
                v = it.frames[-1].locals[node.name]
            else:
                v = it.ev(node)
        finally:
            it.frames.pop()
        if is_value(v) and isinstance(v[1], Desc):
            return v[1]
        return None

    def surely(self, f):
        """runs, and reports errors the code raises"""
        it = self.w.it
        mark = len(it.effects)
        r = f()
        for e in it.effects[mark:]:
            if e.kind == "raise" and not e.guards:
                raise SurelyFails("an error")
        return r

    def build(self, desc, given, prev=None, proto=None, defaults=None):
        """an element with the values given to the group"""
        w = self.w
        it = w.it
        root = {} if prev is None else prev
        tree = [{}, {}, root]
        host = Host(self, tree, ("part", "piece"), proto, defaults)
        self.host = host
        host.desc = desc
        regs = {k: w.dict([(C(n), v) for n, v in d.items()]) for k, d in desc.registries.items()}
        group = w.dict([(C(n), C(n)) for n in desc.group])
        host.read = lambda name: self.read(host, desc, name, group, regs)
        sources = w.dict([(C(desc.group[n][0]), v) for n, v in given])
        if desc.setup_fn is not None:
            if proto is None:
                host.defaults = dict(host.defaults)
            self.surely(lambda: it.call(desc.setup_fn, [C(host)], [("sources", sources), ("group", group)] + [(k, v) for k, v in regs.items()], None))
        return host

    def read(self, host, desc, name, group, regs):
        it = self.w.it
        self.host = host
        principal, f = desc.group[name]
        kw = [("storage", NONE), ("group", group)] + [(k, d[principal]) for k, d in desc.registries.items() if principal in d]
        return self.surely(lambda: it.call(f, [C(host)], kw, None))

    def prototype(self, host):
        """the element as the model of a replica: its attributes by name"""
        for n in host.desc.group:
            host.defaults[n] = (lambda n=n: host.read(n))
        return host

    def pair(self, obj):
        return self.number(self.w.attr(obj, "val")), self.number(self.w.attr(obj, "ref"))


def close(a, b):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def unit_of(name, stems):
    """the unit a spelling means, from its text alone"""
    for s in sorted(stems, key=len, reverse=True):
        if name.startswith(s + "_"):
            u = parse_unit(name[len(s) + 1:], ours=True)
            if u:
                return u
    return None


def declared(prog):
    """(class, attribute name, node) of every declaration"""
    for ci in sorted(prog.all_classes(), key=lambda c: c.qual):
        for name, m in ci.members.items():
            if isinstance(m, ast.FunctionDef):
                if any(d.startswith(("dproperty_adv", "group_dproperty")) for d in deco_names(m)) and any(isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in GENERATORS for x in ast.walk(m)):
                    yield ci, name, m
            elif isinstance(m, tuple) and isinstance(m[1], ast.Call):
                f = m[1].func
                target = None
                r = None
                if isinstance(f, ast.Name):
                    r = prog.resolve_in_module(ci.module.name, f.id)
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                    r = prog.resolve_in_module(ci.module.name, f.value.id)
                    r = prog.resolve_in_module(r[1], f.attr) if r and r[0] == "module" else None
                if r and r[0] == "func":
                    target = r[2]
                if isinstance(target, ast.FunctionDef) and target.name.startswith("generate_"):
                    yield ci, name, m[1]


def run(ctx):
    prog = ctx.prog
    bad = {}

    def case(rule, construct, what, f, where):
        try:
            err = f()
        except AnalysisBroken:
            raise
        except SurelyFails as ex:
            err = "it raises %s" % ex
        except BAD as ex:
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            ctx.undecided("%s %s (%s): %s %s" % (rule, construct, what, type(ex).__name__, str(ex)[:120]))
            return
        if err:
            bad.setdefault((rule, construct), (where, "%s: %s" % (what, err)))
        else:
            ctx.ok(rule, "%s: %s" % (construct, what))
    lab = Lab(prog)
    seen = set()
    for ci, name, node in declared(prog):
        where = "%s (%s.%s)" % (ci.module.path, ci.name, name)
        try:
            desc = lab.declare(ci.module, ci, node)
        except BAD as ex:
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            ctx.undecided("declaration of %s.%s: %s" % (ci.name, name, str(ex)[:100]))
            continue
        if desc is None:
            ctx.undecided("declaration of %s.%s is not understood" % (ci.name, name))
            continue
        what = "%s.%s" % (ci.name, name)
        lab.forget()
        if desc.construct_fn is None and desc.group:
            grouped(lab, case, ci, desc, what, where, seen)
        elif desc.construct_fn is not None:
            single(lab, case, ci, desc, what, where, node, seen)
    arithmetic(lab, case)
    tables(lab, case)
    for (rule, construct), (where, d) in sorted(bad.items()):
        ctx.fail(rule, construct, where, d)
    ctx.assumptions = ASSUMPTIONS


NOTHING = object()


def grouped(lab, case, ci, desc, what, where, seen):
    """a parameter with units"""
    w, it = lab.w, lab.w.it
    spelled = {n: unit_of(n, desc.stem_names) for n in desc.group}
    names = [n for n, u in spelled.items() if u]
    preferred = [n for n, u in spelled.items() if not u]
    defaults = class_defaults(lab, ci, desc)
    key = (tuple(sorted(desc.group)), desc.setup_fn and it.funcs[desc.setup_fn[1]].node)
    first = key not in seen
    deep = frozenset(spelled[n] for n in names) not in seen
    seen.add(frozenset(spelled[n] for n in names))
    seen.add(key)
    base = defaults

    def reads(host, value, ref, size):
        """the value in every unit"""
        for n in names:
            got = lab.pair(host.read(n))
            want = tuple(None if x is None else x * size / spelled[n][0] for x in (value, ref))
            for g, x, which in zip(got, want, ("value", "reference value")):
                if not close(g, x):
                    return "the %s read as %s is %s instead of %s" % (which, n, g and g.real, x)
        for n in preferred:
            obj = host.read(n)
            u = w.attr(obj, "units")
            u = u[1].quantity() if is_value(u) and isinstance(u[1], U) else u[1]
            for which, x in (("val", value), ("ref", ref)):
                g = lab.number(w.attr(obj, which))
                g = None if g is None else g * u.unit.size * (u.mag[1] if is_const(u.mag) else lab.number(u.mag).real)
                if not close(g, None if x is None else x * size):
                    return "the %s of %s with its units is %s instead of %s" % (which, n, g and g.real, None if x is None else x * size)
    v, r = lab.values["v"], lab.values["r"]
    if first:
        for n in names:
            def given():
                host = lab.build(desc, [(n, S("v"))], defaults=base)
                return reads(host, v, v, spelled[n][0])
            case("units", what, "given as %s" % n, given, where)

            def nothing():
                host = lab.build(desc, [(n, NONE)], defaults=base)
                return reads(host, None, None, 1.)
            case("units", what, "given as %s without a value" % n, nothing, where)

            def before():
                """settings made before win over the value given"""
                for m in names[:3]:
                    prev = {"part": {"piece": {}}}
                    src = lab.build(desc, [(m, S("w"))], defaults=base)
                    prev = {"part": {"piece": dict(src.tree[1]["part"]["piece"])}}
                    host = lab.build(desc, [(n, S("v"))], prev=prev, defaults=base)
                    err = reads(host, lab.values["w"], lab.values["w"], spelled[m][0])
                    if err:
                        return "settings kept from one made with %s: %s" % (m, err)
            case("settings", what, "settings against %s" % n, before, where)

            def fitted():
                host = lab.build(desc, [(n, S("v"))], defaults=base)
                for m in names if deep else names[:2] + [n]:
                    obj = host.read(m)
                    data = [t for t in w.elems(w.attr(obj, "fitter_data"))][0][1].d
                    tree = {}
                    old = lab.number(w.apply(data["initial"], C(Tree(host.tree))))
                    if not close(old, v * spelled[n][0] / spelled[m][0]):
                        return "a fit of %s starts at %s instead of %s" % (m, old and old.real, v * spelled[n][0] / spelled[m][0])
                    for kind, args, want in (("inject", [S("v2"), S("r2")], ("v2", "r2")), ("reinject", [S("v2")], ("v2", "v2"))):
                        tree = {}
                        w.apply(data[kind], C(Tree([{}, {}, tree], (), 2)), *args)
                        again = lab.build(desc, [(n, S("v"))], prev=tree, defaults=base)
                        err = reads(again, lab.values[want[0]], lab.values[want[1]], spelled[m][0])
                        if err:
                            return "after a fit of %s (%s): %s" % (m, kind, err)
            case("fit", what, "made with %s" % n, fitted, where)

            def replica():
                host = lab.prototype(lab.build(desc, [(n, S("v"))], defaults=dict(base)))
                copy = lab.build(desc, [], proto=host, defaults=dict(base))
                return reads(copy, v, v, spelled[n][0])
            case("replica", what, "of one made with %s" % n, replica, where)

            def doubled():
                for m in names:
                    if desc.group[m][0] == desc.group[n][0]:
                        continue
                    try:
                        lab.build(desc, [(n, S("v")), (m, S("w"))], defaults=base)
                    except SurelyFails:
                        continue
                    return "%s and %s given together are accepted" % (n, m)
            case("one spelling", what, n, doubled, where)
        group = w.prog.get_class(SU, "SimpleUnitfulGroup")
        dims = {spelled[n][1] for n in names}
        for p in preferred:
            for n in names:
                u = parse(n.split("_")[-1].replace("Ohm", "ohm"))

                def bunch():
                    g = lab.new(it, group.qual, [], [("val", S("v")), ("ref", S("r")), ("units", C(u))], None)
                    host = lab.build(desc, [(p, g)], defaults=base)
                    err = reads(host, v, r, spelled[n][0])
                    if not err:
                        src = lab.prototype(host)
                        err = reads(lab.build(desc, [], proto=src, defaults=dict(base)), v, r, spelled[n][0])
                        err = err and "in a replica, " + err
                    return err
                case("quantity", what, "%s given as value and reference in %s" % (p, n), bunch, where)

                def quantity():
                    host = lab.build(desc, [(p, C(Q(S("v"), u.unit)))], defaults=base)
                    return reads(host, v, v, spelled[n][0])
                case("quantity", what, "%s given as a quantity in %s" % (p, n), quantity, where)

                def unit():
                    host = lab.build(desc, [(p, C(u.unit))], defaults=base)
                    return reads(host, 1., 1., spelled[n][0])
                case("quantity", what, "%s given as the unit of %s" % (p, n), unit, where)

            def none():
                return reads(lab.build(desc, [(p, NONE)], defaults=base), None, None, 1.)
            case("quantity", what, "%s given without a value" % p, none, where)

    def defaulted():
        d = defaults.get("default")
        if d is None:
            return None
        t = d[1]
        pair = w.elems(t) if t[0] in ("obj", "tuple") else None
        if pair is None or len(pair) != 2 or not is_const(pair[0]):
            return "the default %s is not a spelling and a value" % show(t)[:60]
        k, x = pair
        if k[1] not in desc.group:
            return "the default is given as %s, which is not one of its spellings" % k[1]
        host = lab.build(desc, [], defaults=base)
        val = lab.number(x)
        return reads(host, val, val, spelled[k[1]][0] if spelled[k[1]] else 1.)
    case("default", what, "nothing given", defaulted, where)


def class_defaults(lab, ci, desc):
    """what the class provides for the attribute the declaration takes its default from"""
    it = lab.w.it
    name = default_name(it, desc)
    out = {}
    if name is None:
        return out
    for c in lab.prog.mro(ci):
        m = c.members.get(name)
        if isinstance(m, tuple):
            it.frames.append(Frame(c.module, None, [{}]))
            try:
                out[name] = it.ev(m[1])
            finally:
                it.frames.pop()
            break
    if name in out:
        out["default"] = (name, out[name])
    return out


def default_name(it, desc):
    f = desc.setup_fn or desc.construct_fn
    for fr in it.funcs[f[1]].env:
        v = fr.get("default_attr")
        if v is not None:
            return v[1] if is_const(v) and isinstance(v[1], str) else None
    return None


def single(lab, case, ci, desc, what, where, node, seen):
    """a parameter that is one property: unitless, or in the units it is given in"""
    w, it = lab.w, lab.w.it
    fname = it.funcs[desc.construct_fn[1]].node
    units = any(isinstance(x, ast.Constant) and x.value == "units" for x in ast.walk(fname))
    defaults = class_defaults(lab, ci, desc)
    v, r = lab.values["v"], lab.values["r"]
    group = w.prog.get_class(SU, "SimpleUnitfulGroup")

    def make(args, prev=None, proto=None):
        host = Host(lab, [{}, {}, prev or {}], ("part", "piece"), proto, dict(defaults))
        host.desc = desc
        lab.host = host
        obj = lab.surely(lambda: it.call(desc.construct_fn, [C(host)] + args, [], None))
        host.defaults[desc.name] = obj
        return host, obj

    def same(obj, value, ref, u=None):
        got = lab.pair(obj)
        size = 1.
        if u is not None:
            t = w.attr(obj, "units")[1]
            t = t.quantity() if isinstance(t, U) else t
            size = t.unit.size * (t.mag[1] if is_const(t.mag) else 1.) / u.unit.size
        for g, x, n in zip(got, (value, ref), ("value", "reference value")):
            if not close(None if g is None else g * size, x):
                return "its %s reads %s instead of %s" % (n, g and g.real, x)
    mm, inch = parse("mm"), parse("in")
    forms = []
    if not units:
        forms.append(("a number", lambda: S("v"), v, v, None))
        forms.append(("value and reference", lambda: lab.new(it, group.qual, [], [("val", S("v")), ("ref", S("r")), ("units", NONE)], None), v, r, None))
        forms.append(("value equal to the reference", lambda: lab.new(it, group.qual, [], [("val", S("v")), ("ref", S("v")), ("units", NONE)], None), v, v, None))
    else:
        for u in (mm, inch):
            forms.append(("value and reference in %s" % u.unit.name, lambda u=u: lab.new(it, group.qual, [], [("val", S("v")), ("ref", S("r")), ("units", C(u))], None), v, r, u))
            forms.append(("a quantity in %s" % u.unit.name, lambda u=u: C(Q(S("v"), u.unit)), v, v, u))
            forms.append(("the unit %s" % u.unit.name, lambda u=u: C(u.unit), 1., 1., u))
        forms.append(("text", lambda: C("2.5 mm"), 2.5, 2.5, mm))
    for label, arg, x, y, u in forms:
        def given():
            return same(make([arg()])[1], x, y, u)
        case("quantity", what, "given as %s" % label, given, where)

        def replica():
            host, obj = make([arg()])
            return same(make([] if not units else [S("w")], proto=host)[1], x, y, u)
        case("replica", what, "of one given as %s" % label, replica, where)

        def settings():
            for how, other, _, _, _ in forms:
                host, obj = make([arg()])
                prev = {"part": {"piece": dict(host.tree[1].get("part", {}).get("piece", {}))}}
                err = same(make([other()], prev=prev)[1], x, y, u)
                if err:
                    return "against %s: %s" % (how, err)
        case("settings", what, "from one given as %s" % label, settings, where)

        def fitted():
            host, obj = make([arg()])
            lab.host = host
            data = w.elems(w.attr(obj, "fitter_data"))[0][1].d
            t = w.attr(obj, "units")
            if u is not None:
                t = t[1].quantity() if isinstance(t[1], U) else t[1]
                uu = Q(C(1), t.unit)
            else:
                uu = None
            old = lab.number(w.apply(data["initial"], C(Tree(host.tree))))
            if not close(old, y):
                return "a fit starts at %s instead of %s" % (old and old.real, y)
            for kind, args, want in (("inject", [S("v2"), S("r2")], ("v2", "r2")), ("reinject", [S("v2")], ("v2", "v2"))):
                tree = {}
                w.apply(data[kind], C(Tree([{}, {}, tree], (), 2)), *args)
                err = same(make([arg()], prev=tree)[1], lab.values[want[0]], lab.values[want[1]], uu)
                if err:
                    return "after a fit (%s): %s" % (kind, err)
        case("fit", what, "given as %s" % label, fitted, where)
    if "default" in defaults:
        def defaulted():
            x = lab.number(defaults["default"][1])
            return same(make([])[1], x, x)
        case("default", what, "nothing given", defaulted, where)


def arithmetic(lab, case):
    """sums, differences and multiples of values with units"""
    w, it = lab.w, lab.w.it
    group = w.prog.get_class(SU, "SimpleUnitfulGroup")
    V = lab.values
    where = "phasor/base/simple_units.py"

    def make(v, r, u):
        return lab.new(it, group.qual, [], [("val", S(v)), ("ref", S(r)), ("units", C(parse(u)))], None)

    def ev(src, **names):
        it.frames.append(Frame(group.module, None, [names]))
        try:
            return lab.surely(lambda: it.ev(ast.parse(src, mode="eval").body))
        finally:
            it.frames.pop()

    def physical(obj):
        u = w.attr(obj, "units")[1]
        u = u.quantity() if isinstance(u, U) else u
        return tuple(lab.number(w.attr(obj, n)) * u.unit.size * (u.mag[1] if is_const(u.mag) else lab.number(u.mag)) for n in ("val", "ref")), u.unit.dim
    for ua, ub in (("mm", "in"), ("in", "mm"), ("m", "m"), ("W", "mW"), ("deg", "rad"), ("ns", "s")):
        a, b = make("v", "r", ua), make("v2", "r2", ub)
        sa, sb = parse_unit(ua)[0], parse_unit(ub)[0]
        for src, f in (("a + b", lambda x, y: x + y), ("a - b", lambda x, y: x - y), ("b - a", lambda x, y: y - x), ("-a", lambda x, y: -x), ("a * k", lambda x, y: x * V["k"]),
                       ("k * a", lambda x, y: x * V["k"]), ("a / k", lambda x, y: x / V["k"]), ("a.__div__(k)", lambda x, y: x / V["k"])):
            def calc():
                r = ev(src, a=a, b=b, k=S("k"))
                if r[0] != "inst":
                    return "%s is %s" % (src, show(r)[:60])
                got, dim = physical(r)
                for g, n, x, y in zip(got, ("value", "reference value"), (V["v"], V["r"]), (V["v2"], V["r2"])):
                    if not close(g, f(x * sa, y * sb)):
                        return "the %s of %s is %s instead of %s" % (n, src, g.real, f(x * sa, y * sb))
            case("arithmetic", "values with units, %s" % src, "a in %s, b in %s" % (ua, ub), calc, where)
        for n, which in (("valQ", "v"), ("refQ", "r")):
            def quantity():
                q = w.attr(a, n)
                if not is_value(q) or not isinstance(q[1], Q):
                    raise Unreadable("quantity")
                g = lab.number(q[1].mag) * q[1].unit.size
                if q[1].unit.dim != parse_unit(ua)[1]:
                    return "%s is in %s instead of %s" % (n, q[1].unit.name, ua)
                if not close(g, V[which] * sa):
                    return "%s is %s instead of %s" % (n, g.real, V[which] * sa)
            case("arithmetic", n, ua, quantity, where)
    for ua, ub in (("mm", "s"), ("W", "m")):
        for src in ("a + b", "a - b"):
            def mixed():
                try:
                    ev(src, a=make("v", "r", ua), b=make("v2", "r2", ub))
                except SurelyFails:
                    return None
                return "%s of a in %s and b in %s is accepted" % (src, ua, ub)
            case("arithmetic", "values of different kinds, %s" % src, "%s, %s" % (ua, ub), mixed, where)


def tables(lab, case):
    """tables of units: each name stands for the unit it spells"""
    it, w = lab.w.it, lab.w
    mod = lab.prog.modules["phasor.base.units"]
    for name in mod.defs:
        d = mod.defs[name]
        if not (isinstance(d, tuple) and isinstance(d[1], ast.Call)):
            continue
        it.frames.append(Frame(mod, None, [{}]))
        try:
            t = it.ev(d[1])
        finally:
            it.frames.pop()
        if not (is_value(t) and isinstance(t[1], Bunch) and "umap" in t[1].d):
            continue
        for k, q, g in w.entries(t[1].d["umap"]):
            def entry():
                u = q[1].quantity() if is_value(q) and isinstance(q[1], U) else q[1]
                want = parse_unit(k[1], ours=True)
                if want is None:
                    raise Unreadable("unit %s" % k[1])
                if u.unit.dim != want[1] or not close(lab.number(u.mag) * u.unit.size, want[0]):
                    return "%s stands for %s" % (k[1], u.unit.name)
            case("tables", "units of %s" % name, k[1], entry, "phasor/base/units.py")

        def principal():
            p, u = t[1].d["principle_name"], t[1].d["principle_unit"]
            m = dict((k[1], q) for k, q, g in w.entries(t[1].d["umap"]))
            if p[1] not in m or m[p[1]] != u:
                return "%s is not among them" % p[1]
        case("tables", "units of %s" % name, "principal unit", principal, "phasor/base/units.py")
