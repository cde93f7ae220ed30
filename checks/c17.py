"""C17: a rebuilt system is the same system."""
import ast
import multiprocessing
import os

from sa import harness
from sa.algebra import NotAlgebraic
from sa.interp import C, NONE, FALSE, TRUE, Frame, SurelyFails, Value, show
from sa.keyvals import new_key, Key
from sa.loader import AnalysisBroken, Module, is_property as plain_property, deco_names
from sa.objects import World, Unreadable

GRAFT = "phasor.base.autograft"
BAD = (NotAlgebraic, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, Unreadable, StopIteration, ArithmeticError)

EXPLANATION = (
    "Systems written with the real base classes, ports and system class are built, used, rebuilt and rebuilt again inside the value-flow "
    "engine; elements, arguments and bonds of every generation must be those of the same system built afresh.")
ASSUMPTIONS = ["the declarative property library behaves as documented: arguments reach the property of their name, values are kept, constructors found as values are built in place"]

SCENES = '''
from ..utilities.future_from_2 import super
import declarative
from ..base.bases import SystemElementBase
from ..base.autograft import invalidate_auto
from ..base.ports import PortIndirect
from ..{pack} import ports


class Pair(SystemElementBase):
    @declarative.dproperty
    def A(self):
        return ports.{port}()

    @declarative.dproperty
    def B(self):
        return ports.{port2}()

    @declarative.mproperty
    def gain(self, val = 1):
        return val

    @declarative.mproperty
    def partner(self, val = None):
        return val


class Box(SystemElementBase):
    def __build__(self):
        super().__build__()
        self.own.a = Pair(gain = 2)
        self.own.b = Pair()
        self.a.A.bond(self.b.B)
        self.own.P = PortIndirect(inner_port = self.b.A)


class Holder(SystemElementBase):
    """makes an inner element which is given one of the outside"""
    @declarative.dproperty
    def partner(self, val = None):
        return val

    @declarative.dproperty
    def inner(self):
        return Pair(partner = self.partner)


class Reader(SystemElementBase):
    """looks another element up by its name while being built"""
    @declarative.dproperty
    def source(self, val):
        return val

    @declarative.dproperty
    def found(self):
        return self.root[self.source]


class Tuned(SystemElementBase):
    @declarative.dproperty
    def length(self, val = 1):
        val = self.ctree.setdefault('length', val)
        return val

    @declarative.dproperty
    def detail(self):
        return Deep()


class Deep(SystemElementBase):
    @declarative.mproperty
    def depth(self, val = 11):
        val = self.ctree.setdefault('depth', val)
        return val


class Count(SystemElementBase):
    @declarative.mproperty(simple_delete = True)
    @invalidate_auto
    def number(self):
        return len(self._registry_children)
'''


def is_property(m):
    return plain_property(m) or "mproperty_check" in deco_names(m)


def deco(d):
    d = d.func if isinstance(d, ast.Call) else d
    return d.id if isinstance(d, ast.Name) else getattr(d, "attr", None)


def simple_delete(member):
    for d in member.decorator_list:
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == "simple_delete" and isinstance(k.value, ast.Constant) and k.value.value:
                    return True
    return False


class Bound(Value):
    """the constructor of the property library, for one object"""

    def __init__(self, lab, obj):
        self.lab, self.obj = lab, obj


class Maker(Value):
    pass


class Settings(Value):
    """the settings of a system: layers of path -> value, seen from one path"""

    def __init__(self, layers, path=(), idx=0, kind="ShadowBunchN", names=None):
        self.layers, self.path, self.idx, self.kind, self.names = layers, path, idx, kind, names or {}

    def at(self, **kw):
        d = dict(layers=self.layers, path=self.path, idx=self.idx, kind=self.kind, names=self.names)
        d.update(kw)
        return Settings(**d)

    def find(self, key):
        """the value at a key, or the subtree; and whether there is anything"""
        path, deep = self.path + (key,), False
        for d in self.layers:
            if path in d:
                if deep:
                    break
                return d[path], True
            deep = deep or any(p[:len(path)] == path for p in d)
        return C(self.at(path=path)), deep

    def item(self, it, key):
        return self.find(key[1])[0] if key[0] == "const" else None

    def attr(self, it, name):
        if name in ("setdefault", "useidx", "extractidx", "get", "update_recursive") or name.startswith("__"):
            return None
        return self.find(name)[0]

    def index(self, x):
        x = x[1]
        if not isinstance(x, int) and x not in self.names:
            raise SurelyFails("KeyError: %s" % x)
        return x if isinstance(x, int) else self.names[x]

    def method(self, it, name, args, kw):
        if name == "setdefault" and args[0][0] == "const":
            v, there = self.find(args[0][1])
            if not there:
                v = args[1] if len(args) > 1 else dict(kw)["default"]
                self.layers[self.idx][self.path + (args[0][1],)] = v
            return v
        if name == "useidx":
            return C(self.at(idx=self.index(args[0])))
        if name == "extractidx":
            i = self.index(args[0])
            if i >= len(self.layers):
                raise SurelyFails("IndexError: no such layer")
            return C(self.at(layers=[self.layers[i]], idx=0, kind="DeepBunch"))
        return None

    def setitem(self, it, key, v):
        if key[0] != "const":
            return None
        self.layers[self.idx][self.path + (key[1],)] = v
        return True

    def setattr(self, it, name, v):
        return self.setitem(it, C(name), v)

    def contains(self, it, x):
        path = self.path + (x[1],)
        return any(p[:len(path)] == path for d in self.layers for p in d)


class Lab:
    def __init__(self, prog, pack):
        self.prog, self.pack = prog, pack
        self.scene(prog, pack)
        w = self.w = World(prog, objects=["BuildingCounter", "SubElementBridge", "ElementConstructorInternal"], exact=True, calls=self.calls, decide=self.decide,
                           new_hook=self.new, values=("DictKey", "FrequencyKey"), recursion=200)
        it = w.it
        it.opts["isinstance"] = self.isinstance
        it.opts["attr"] = self.attr
        it.opts["decorate"] = self.decorate
        it.opts["super_missing"] = self.outside
        it.opts["enter"] = self.enter
        it.opts["depth"] = 100
        it.opts["asserted"] = self.asserted
        self.boot, self.count, self.order = {}, 0, []
        self.base = prog.get_class(GRAFT, "Element")
        self.eager = dict()
        assign, member, attr = it.assign, it.member_value, it.get_attr

        def assign2(t, v, aug=None):
            if isinstance(t, ast.Attribute) and aug is None:
                b = it.ev(t.value)
                if b[0] == "inst" and it.selfcls[b].name == "SubElementBridge" and t.attr != "_parent":
                    return w.call(b, "__setattr__", C(t.attr), v)
                if b[0] == "inst" and self.is_element(b):
                    self.set(b, t.attr, v)
                    return
            return assign(t, v, aug)

        def member2(dc, m, name, selfterm, viasuper=False):
            if isinstance(m, tuple) or not is_property(m) or selfterm[0] != "inst" or viasuper:
                return member(dc, m, name, selfterm, viasuper)
            args = []
            boot = self.boot.get(selfterm, {})
            if name in boot:
                args = [boot.pop(name)]
            v = it.call_func(it.mkfunc(m, dc.module, dc, [], selfterm), args, [], None)
            if self.is_constructor(v):
                v = w.it.call(w.it.get_attr(v, "construct"), [selfterm, C(name)], [], None)
            if "invalidate_auto" in [deco(d) for d in m.decorator_list]:
                self.note(selfterm, name)
            it.store[(selfterm, name)] = v
            return v

        it.assign, it.member_value = assign2, member2

        def undecided(*a):
            raise Unreadable("a choice the scene leaves open: %s" % " ".join(show(x)[:150] for x in a if isinstance(x, tuple))[:300])
        it.branch = it._visited_rerun = it._havoc = undecided


    # ------------------------------------------------------------ scenes
    def scene(self, prog, pack):
        name = "phasor.scenes_.s_" + pack
        if name in prog.modules:
            return
        d = PACKS[pack]
        src = SCENES.format(pack=d[0], port=d[1], port2=d[2])
        m = Module(name, name, name, ast.parse(src), src, False)
        prog.modules[name] = m
        prog._index(m)

    # ------------------------------------------------------------ the property library
    def is_element(self, obj):
        return obj[0] == "inst" and self.prog.subclass_of(self.w.it.selfcls[obj], "ElementBase")

    def is_constructor(self, v):
        return v[0] == "inst" and self.w.it.selfcls[v].name == "ElementConstructorInternal"

    def new(self, it, qual, args, kw, node=None):
        k = new_key(it, qual, args, kw, node)
        if k is not None:
            return k
        ci = it._class_by_qual(qual)
        if ci is not None and any(c == "ShadowBunch" for c in [ast.unparse(b).split(".")[-1] for b in ci.base_exprs]):
            layers = [x[1] for x in self.w.elems(dict(kw)["dicts"] if "dicts" in dict(kw) else args[0]) if x[0] == "const"]
            if any(not isinstance(x, Value) for x in layers):
                raise SurelyFails("TypeError: settings looked up in %s" % layers)
            if any(x.path for x in layers):
                raise Unreadable("a part of the settings as a layer")
            names = ast.literal_eval(ci.members["_names"][1])
            return C(Settings([d for x in layers for d in x.layers], kind=ci.name, names=names))
        if ci.name in ("PortUpdatesAlgorithm", "MatrixBuildAlgorithm", "SystemSolver"):
            return C(ci.name)
        if ci is None or not self.prog.subclass_of(ci, "ElementBase"):
            return None
        if it.get_attr(("class", qual), "_defer_build") == TRUE:
            con = self.prog.get_class(GRAFT, "ElementConstructorInternal")
            return self.w.new(con, new=C(Maker()), cls=("class", qual), args=("tuple", tuple(args)), kwargs=self.w.dict([(C(k), v) for k, v in kw]))
        obj = it.fresh(ci)
        self.w.call(obj, "__init__", **dict(kw))
        return obj

    def outside(self, it, st, name):
        """what the classes of the library do when everything of the program was asked"""
        if name == "__init__":
            return C(Bound(self, st))
        return None

    def init(self, obj, kw):
        it = self.w.it
        it.store[(obj, "_overridable_object_kwargs")] = self.w.dict([(C(k), v) for k, v in kw])
        ci = it.selfcls[obj]
        for k, v in kw:
            r = self.prog.lookup(ci, k)
            if r is None:
                raise SurelyFails("ValueError: %s takes no %s" % (ci.name, k))
            if isinstance(r[1], tuple):
                it.store[(obj, k)] = v
            else:
                self.boot.setdefault(obj, {})[k] = v
        self.w.call(obj, "__mid_init__")
        for name in self.declared(ci):
            it.get_attr(obj, name)
        return NONE

    def declared(self, ci):
        if ci.qual not in self.eager:
            seen, out = set(), []
            for c in self.prog.mro(ci):
                for n, m in c.members.items():
                    if n in seen:
                        continue
                    seen.add(n)
                    if not isinstance(m, tuple) and any(deco(d) in ("dproperty", "mproperty_check") for d in m.decorator_list):
                        if c.module.name == "phasor.system.system" and n in ("F_AC", "F_carrier_1064", "FD_carrier_1064", "symbols"):
                            continue
                        if c.module.name == "phasor.optics.vacuum" and n != "po_Fr":
                            continue
                        out.append(n)
            self.eager[ci.qual] = sorted(out)
        return self.eager[ci.qual]

    def set(self, obj, name, v):
        it = self.w.it
        r = self.prog.lookup(it.selfcls[obj], name)
        if r is not None and not isinstance(r[1], tuple) and is_property(r[1]) and (obj, name) not in it.store:
            self.boot.setdefault(obj, {})[name] = v
        else:
            it.store[(obj, name)] = v

    def note(self, obj, name):
        reg = self.w.it.get_attr(obj, "_registry_invalidate")
        h = self.w.it.heap[reg[1]]
        h.items = [x for x in h.items if x[0] != C(name)] + [(C(name), NONE, (), ())]

    def delete(self, obj, name):
        it = self.w.it
        dc, m = self.prog.lookup(it.selfcls[obj], name)
        if (obj, name) not in it.store:
            raise SurelyFails("deleting %s, which was never computed" % name)
        del it.store[(obj, name)]
        if not simple_delete(m):
            it.call_func(it.mkfunc(m, dc.module, dc, [], obj), [("global", "declarative.NOARG"), NONE], [], None)
        return NONE

    def decorate(self, it, d, f, node):
        if d == ("global", "functools.wraps") or "invalidate_auto" in show(d)[:200]:
            return f
        return None

    def enter(self, it, v, name):
        if v[0] == "inst":
            args = [NONE, NONE, NONE] if name == "__exit__" else []
            self.w.call(v, name, *args)

    # ------------------------------------------------------------ the engine's questions
    def isinstance(self, it, a, b):
        names = [x[1].split(":")[-1].split(".")[-1] for x in (b[1] if b[0] == "tuple" else [b]) if x[0] in ("class", "global")]
        if a[0] == "inst":
            ci = it.selfcls[a]
            if self.is_constructor(a):
                return "PropertyTransforming" in names or "ElementConstructorInternal" in names
            return any(self.prog.subclass_of(ci, n) for n in names)
        if a[0] == "const":
            if isinstance(a[1], str):
                return "str" in names or "unicode" in names
            if isinstance(a[1], Settings):
                return a[1].kind in names
            if not isinstance(a[1], Value):
                return any(n == type(a[1]).__name__ for n in names)
            return False
        if a[0] in ("obj", "class", "tuple"):
            return False
        if a[0] == "global":
            return False
        return None

    def attr(self, it, base, name):
        if base[0] != "inst":
            return None
        ci = it.selfcls[base]
        r = self.prog.lookup(ci, name)
        if r is None and name == "__init__":
            return C(Bound(self, base))
        if name.startswith("__"):
            return None
        if r is None and self.is_element(base):
            reg = self.w.entries(it.get_attr(base, "_registry_children"))
            pre = self.w.entries(it.get_attr(base, "_registry_inserted_pre"))
            if any(k == C(name) for k, v, g in reg + pre):
                return self.w.call(base, "__getitem__", C(name))
            raise SurelyFails("AttributeError: %s of %s" % (name, ci.name))
        if r is None and ci.name == "SubElementBridge" and (base, name) not in it.store:
            return self.w.call(base, "__getitem__", C(name))
        return None

    def calls(self, w, func, args, kw):
        it = w.it
        if func[0] == "const" and isinstance(func[1], Bound):
            return self.init(func[1].obj, list(kw))
        if func[0] == "const" and isinstance(func[1], Maker):
            self.count += 1
            if self.count > 600:
                raise SurelyFails("building does not end: ever more objects are made")
            return it.fresh(it._class_by_qual(args[0][1]))
        if func == ("global", "builtins.hasattr") and args[1][0] == "const":
            try:
                it.get_attr(args[0], args[1][1])
                return TRUE
            except SurelyFails:
                return FALSE
        if func == ("global", "builtins.bool") and len(args) == 1 and args[0][0] == "const" and not isinstance(args[0][1], Value):
            return C(bool(args[0][1]))
        if func[0] == "attr" and func[1][0] == "const" and isinstance(func[1][1], str) and all(a[0] == "const" for a in args) and func[2] in (
                "split", "rsplit", "partition", "startswith", "endswith", "join", "format", "replace", "count", "find", "strip"):
            r = getattr(func[1][1], func[2])(*[a[1] for a in args])
            return w.list([C(x) for x in r]) if isinstance(r, list) else ("tuple", tuple(C(x) for x in r)) if isinstance(r, tuple) else C(r)
        if func == ("global", "builtins.delattr"):
            return self.delete(args[0], args[1][1])
        if func[0] == "global" and (func[1].startswith("warnings.") or func[1].endswith(".print")):
            return NONE
        if func == ("global", "builtins.callable"):
            return C(args[0][0] in ("func", "class"))
        if func[0] == "global" and func[1].split(".")[-1] in ("DeepBunch", "DeepBunchSingleAssign") and not args:
            return C(Settings([{}], kind=func[1].split(".")[-1]))
        return None

    def asserted(self, it, c):
        return {TRUE: True, FALSE: False}.get(c) if c[0] == "const" else self.decide(it, c)

    def decide(self, it, c):
        if c[0] == "not":
            r = self.decide(it, c[1])
            return None if r is None else not r
        if c[0] == "inst":
            if it.selfcls[c].name == "BuildingCounter":
                r = it.as_cond(self.w.call(c, "__bool__"))
                if r[0] != "const":
                    raise Unreadable("the building counter: %s" % show(r)[:80])
                return bool(r[1])
            return True
        if c[0] == "cmp" and c[1] in ("is", "==") and any(x[0] == "global" and x[1].endswith("NOARG") for x in c[2:]):
            return c[2] == c[3]
        if c[0] == "cmp" and c[1] == "in" and all(x[0] == "const" and isinstance(x[1], str) for x in c[2:]):
            return c[2][1] in c[3][1]
        if c[0] == "call" and c[1] == ("global", "builtins.callable"):
            return c[2][0][0] in ("func", "class")
        if c[0] == "cmp" and c[1] in ("==", "is") and all(x[0] in ("inst", "const", "class", "global", "obj", "tuple") for x in c[2:]):
            return c[2] == c[3]
        return None

    # ------------------------------------------------------------ what is built
    def bonds(self, sy):
        w = self.w
        return sorted(((a, b) for a, d, _ in w.entries(w.attr(sy, "bond_pairs")) for b, v, _ in w.entries(d)), key=str)

    def tree(self, sy):
        w, it, out = self.w, self.w.it, {}

        def visit(obj):
            for k, c, _ in w.entries(w.attr(obj, "_registry_children")):
                name = w.attr(c, "name_system")
                if name in out:
                    raise SurelyFails("%s exists twice" % show(name))
                args = tuple(sorted((k[1], self.value(sy, v)) for k, v, _ in w.entries(it.store[(c, "_overridable_object_kwargs")]) if k[1] not in ("parent",)))
                out[name[1]] = (it.selfcls[c].name, args)
                if w.attr(c, "root") != sy or w.attr(c, "parent") != obj:
                    raise SurelyFails("%s belongs to another system" % show(name))
                visit(c)
        visit(sy)
        return out

    def value(self, sy, v):
        it = self.w.it
        if v[0] == "inst" and self.is_element(v):
            own = it.get_attr(v, "root") == sy
            return ("own " if own else "foreign ") + show(it.get_attr(v, "name_system"))
        return show(v)[:60]

    def cls(self, name):
        return ("class", [m.classes[name].qual for n, m in self.prog.modules.items() if n.startswith("phasor.scenes_") and n.endswith(self.pack)][0])


PACKS = {
    "electrical": ("electronics", "ElectricalPort", "ElectricalPort"),
    "mechanical": ("mechanical", "MechanicalPort", "MechanicalPort"),
    "xyz": ("mechanical", "MechanicalXYZPort", "MechanicalXYZPort"),
    "optical": ("optics", "OpticalPort", "OpticalPort"),
    "signal": ("signals", "SignalOutPort", "SignalInPort"),
}


def source(lab, text, **names):
    """run statements of a user's script"""
    it = lab.w.it
    f = Frame(lab.prog.modules["phasor.scenes_.s_" + lab.pack], None, [dict(names)])
    it.frames.append(f)
    try:
        for st in ast.parse(text).body:
            it.stmt(st)
    finally:
        it.frames.pop()


def settled(lab, sy):
    lab.w.call(sy, "_setup_sequence")
    return lab.tree(sy), lab.bonds(sy)


def differences(got, want):
    """the first difference between two systems"""
    for name in want[0]:
        if name not in got[0]:
            return "%s is missing" % name
        if got[0][name] != want[0][name]:
            return "%s: %s instead of %s" % (name, got[0][name], want[0][name])
    for name in got[0]:
        if name not in want[0]:
            return "%s is new" % name
    for b in want[1]:
        if b not in got[1]:
            return "the bond %s to %s is missing" % (show(b[0]), show(b[1]))
    for b in got[1]:
        if b not in want[1]:
            return "the bond %s to %s is new" % (show(b[0]), show(b[1]))
    return None


def rebuilt(ctx, prog, pack, title, steps, uses, touch=""):
    """steps: a script per generation (what is added to it); uses: whether each generation is solved before the next is made"""
    at = "phasor/base/autograft.py"
    lab = Lab(prog, pack)
    root = prog.get_class("phasor.system.system", "BGSystem").qual
    text = ""
    want, systems = [], []
    for s in steps:
        text += s + "\n"
        ref = lab.new(lab.w.it, root, [], [])
        source(lab, text, sy=ref)
        want.append(settled(lab, ref))
    sy = lab.new(lab.w.it, root, [], [])
    for n, use in enumerate(uses):
        if n:
            sy = lab.w.call(sy, "regenerate")
            if touch:
                source(lab, touch, sy=sy)
        if n < len(steps):
            source(lab, steps[n], sy=sy)
        systems.append(sy)
        if use:
            d = differences(settled(lab, sy), want[min(n, len(want) - 1)])
            ctx.check(d is None, "rebuilt", "%s, %s" % (pack, title), at, "generation %d (%s): %s" % (n, "".join("u" if u else "-" for u in uses), d))
            if d:
                return
    for n, (old, use) in enumerate(zip(systems, uses)):
        w = want[min(n, len(want) - 1)]
        if use:
            got = lab.tree(old), lab.bonds(old)
        else:
            got = settled(lab, old)
        d = differences(got, w)
        ctx.check(d is None, "untouched", "%s, %s" % (pack, title), at, "generation %d after later ones were made: %s" % (n, d))


def settings(ctx, prog, pack, title, given, uses):
    """given: the settings each generation is rebuilt with, (None, the path -> value, or ("view", ...) for a view of the older system's)"""
    at = "phasor/base/autograft.py"
    lab = Lab(prog, pack)
    it = lab.w.it
    root = prog.get_class("phasor.system.system", "BGSystem").qual
    sy = lab.new(it, root, [], [])
    source(lab, "sy.own.a = Tuned()\nsy.own.x = Box()\nsy.x.own.c = Tuned(length = 3)", sy=sy)
    plain = {"a.length": 1, "a.detail.depth": 11, "x.c.length": 3, "x.c.detail.depth": 11}
    want, done = dict(plain), []
    for n, g in enumerate(given):
        if n:
            kw = {}
            if g is not None and g[0] == "view":
                view = lab.w.call(sy, "ctree_shadow")
                for p, v in g[1].items():
                    view[1].layers[0][p] = C(v)
                kw = {"ctree": view}
            elif g is not None:
                kw = {"ctree": C(Settings([dict((p, C(v)) for p, v in g[1].items())], kind="DeepBunch"))}
            if g is not None:
                want = dict(plain)
                want.update((".".join(p), v) for p, v in g[1].items())
            sy = lab.w.call(sy, "regenerate", **kw)
        if uses[n]:
            lab.w.call(sy, "_setup_sequence")
        done.append((sy, dict(want)))
    for n, (s, w) in enumerate(done):
        for p, v in w.items():
            obj = s
            for k in p.split("."):
                obj = it.get_attr(obj, k)
            ctx.check(obj == C(v), "settings", "%s, %s" % (title, p), at, "generation %d: %s instead of %s" % (n, show(obj)[:40], v))


def parameters(ctx, prog, pack, title, given, uses):
    """given: the arguments each generation is rebuilt with; the latest given for each name holds from there on"""
    at = "phasor/base/autograft.py"
    lab = Lab(prog, pack)
    it = lab.w.it
    sy = lab.new(it, prog.get_class("phasor.system.system", "BGSystem").qual, [], [(k, C(v)) for k, v in given[0].items()])
    source(lab, "sy.own.x = Box()", sy=sy)
    want, done = dict(given[0]), []
    for n, g in enumerate(given):
        if n:
            sy = lab.w.call(sy, "regenerate", **{k: C(v) for k, v in g.items()})
            want.update(g)
        if uses[n]:
            lab.w.call(sy, "_setup_sequence")
        done.append((sy, dict(want)))
    for n, (s, w) in enumerate(done):
        for k, v in w.items():
            got = it.get_attr(s, k)
            ctx.check(got == C(v), "settings", "%s, %s" % (title, k), at, "generation %d: %s instead of %s" % (n, show(got)[:40], v))


def memory(ctx, prog, pack, title):
    """what was computed from the elements is computed anew once there are more"""
    at = "phasor/base/autograft.py"
    lab = Lab(prog, pack)
    it = lab.w.it
    sy = lab.new(it, prog.get_class("phasor.system.system", "BGSystem").qual, [], [])
    source(lab, "sy.own.k = Count()\nsy.own.x = Box()\nsy.x.own.k = Count()\nsy.x.k.own.k = Count()", sy=sy)
    ks = {}
    for p in ("k", "x.k", "x.k.k"):
        obj = sy
        for q in p.split("."):
            obj = it.get_attr(obj, q)
        ks[p] = obj
    have = {"k": 0, "x.k": 1, "x.k.k": 0}
    for n, p in enumerate(("k", "x.k.k", "k", "x.k", "x.k.k", "x")):
        for q, k in ks.items():
            v = it.get_attr(k, "number")
            ctx.check(v == C(have[q]), "anew", "%s asked after %d insertions" % (q, n), at, "%s children of %d" % (show(v)[:30], have[q]))
        source(lab, "o.own.i%d = Pair()" % n, o=ks[p] if p in ks else it.get_attr(sy, "x"))
        if p in have:
            have[p] += 1


MEMO = {"mproperty", "dproperty", "mproperty_check"}
MUTATORS = {"append", "insert", "update", "setdefault", "pop", "extend", "add"}


def live(node):
    """the statements of a function before it surely returns"""
    for st in node.body:
        yield from ast.walk(st)
        if isinstance(st, (ast.Return, ast.Raise)):
            return


def stale(ctx, prog):
    """what a layout computes from its elements is forgotten when there are more: a dependency analysis over the classes of phasor.alm"""
    table = {}

    def members(ci):
        mem = {}
        for c in prog.mro(ci):
            for n, m in c.members.items():
                mem.setdefault(n, (c, m))
        return {n: x for n, x in mem.items() if not isinstance(x[1], tuple)}

    def reaching(ci):
        if ci.qual in table:
            return table[ci.qual]
        mem = members(ci)
        dep, outer = {}, set()
        lay = reaching(layout)[1] if "layout" in mem and ci is not layout else set()
        for n, (c, m) in mem.items():
            me = m.args.args[0].arg if m.args.args else None
            dep[n] = set()
            for x in live(m):
                if isinstance(x, ast.Attribute):
                    if isinstance(x.value, ast.Name) and x.value.id == me:
                        dep[n].add(x.attr)
                    elif isinstance(x.value, ast.Attribute) and x.value.attr == "layout" and isinstance(x.value.value, ast.Name) and x.value.value.id == me and x.attr in lay:
                        outer.add(n)
        reach = {n for n in dep if dep[n] & {"_registry_children", "targets_recurse"}} | outer
        while True:
            more = {n for n in dep if n not in reach and dep[n] & reach}
            if not more:
                break
            reach |= more
        table[ci.qual] = mem, reach
        return table[ci.qual]

    def forgotten(m):
        """True/False, None when decorated by something else"""
        names = {deco(d) for d in m.decorator_list}
        if not names & MEMO:
            return True
        if names - MEMO - {"invalidate_auto"}:
            return None
        return "invalidate_auto" in names and (simple_delete(m) or len(m.args.args) > 2)

    layout = prog.get_class("phasor.alm.measurements", "RootSystem")
    seen = set()
    for ci in prog.all_classes():
        if not ci.module.name.startswith("phasor.alm") or not prog.subclass_of(ci, "ElementBase"):
            continue
        mem, reach = reaching(ci)
        for n in sorted(reach):
            c, m = mem[n]
            if not c.module.name.startswith("phasor.alm"):
                continue
            marked = [(n, m, c, "depends on the elements")] if {deco(d) for d in m.decorator_list} & MEMO else []
            me = m.args.args[0].arg if m.args.args else None
            for x in live(m):
                held = None
                if isinstance(x, (ast.Subscript,)) and isinstance(x.ctx, ast.Store):
                    held = x.value
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    held = x.func.value
                if isinstance(held, ast.Attribute) and isinstance(held.value, ast.Name) and held.value.id == me and held.attr in mem:
                    hc, hm = mem[held.attr]
                    if hc.module.name.startswith("phasor.alm") and {deco(d) for d in hm.decorator_list} & MEMO:
                        marked.append((held.attr, hm, hc, "holds what %s makes of the elements" % n))
            for name, node, cls, why in marked:
                if (cls.qual, name) in seen:
                    continue
                seen.add((cls.qual, name))
                ok = forgotten(node)
                if ok is None:
                    ctx.undecided("%s.%s: other decorators" % (cls.name, name))
                    continue
                ctx.check(ok, "stale", "%s.%s" % (cls.name, name), "%s:%d" % (cls.module.name.replace(".", "/") + ".py", node.lineno),
                          "%s but is kept when elements are added" % why)


def attempt(ctx, prog, f, *a):
    try:
        f(ctx, prog, *a)
    except SurelyFails as ex:
        ctx.fail("rebuilt", "%s, %s" % (a[0], a[1]), "phasor/base/autograft.py", "building or rebuilding fails: %s" % str(ex)[:150])
    except BAD as ex:
        if os.environ.get("VERIF_TRACE"):
            import traceback
            traceback.print_exc()
        ctx.undecided("%s, %s: %s" % (a[0], a[1], repr(ex)[:200]))


def scripts(pack):
    one = pack == "signal"
    X, Y = ("A", "B") if one else ("A", "B")
    yield "a chain", ["sy.own.a = Pair(gain = 3)\nsy.own.b = Pair()\nsy.own.c = Pair()\nsy.bond(sy.a.A, sy.b.B)\nsy.c.B.bond(sy.b.A)"]
    yield "inner bonds", ["sy.own.x = Box()\nsy.own.y = Box()\nsy.x.b.A.bond(sy.y.a.B)"]
    yield "inserted into an element", ["sy.own.x = Box()\nsy.x.own.c = Pair(gain = 4)\nsy.x.c.A.bond(sy.x.a.B)\nsy.x.c.own.d = Pair()"]
    yield "extended later", ["sy.own.a = Pair(gain = 3)\nsy.own.b = Pair()\nsy.a.A.bond(sy.b.B)", "sy.own.c = Pair()\nsy.c.A.bond(sy.a.B)", "sy.own.d = Box()\nsy.c.own.e = Pair()\nsy.d.a.B.bond(sy.b.A)"]
    yield "arguments", ["sy.own.a = Pair(gain = 3)\nsy.own.b = Pair(partner = sy.a)\nsy.own.x = Box()\nsy.own.h = Holder(partner = sy.x.b)\nsy.own.h2 = Holder(partner = sy)"]
    yield "found by name", ["sy.own.a = Pair(gain = 3)\nsy.own.x = Box()\nsy.x.own.c = Pair()\nsy.own.r = Reader(source = 'a')\nsy.own.q = Reader(source = 'x.c')\nsy.own.b = Pair()"]
    yield "a port of another's", ["sy.own.x = Box()\nsy.own.c = Pair()\nsy.own.y = Box()\nsy.bond(sy.c.B, sy.x.P)\nsy.y.P.bond(sy.x.a.B)"]
    if pack in ("electrical", "mechanical", "xyz"):
        yield "a star", ["sy.own.a = Pair()\nsy.own.b = Pair()\nsy.own.c = Pair()\nsy.own.d = Pair()\nsy.a.A.bond(sy.b.A)\nsy.a.A.bond(sy.c.A)\nsy.a.A.bond(sy.d.B)"]
    if pack == "signal":
        yield "many readers", ["sy.own.a = Pair()\nsy.own.b = Pair()\nsy.own.c = Pair()\nsy.a.A.bond(sy.b.B)\nsy.a.A.bond(sy.c.B)\nsy.b.A.bond(sy.c.B)"]


USES = [(1, 1, 1, 1), (0, 0, 0, 1), (1, 0, 1), (0, 1, 0, 1)]


def jobs():
    for pack in PACKS:
        for title, steps in scripts(pack):
            for uses in USES:
                yield rebuilt, pack, title, steps, uses
            yield rebuilt, pack, title, steps, (0, 0, 1), "sy.%s" % ("x" if "sy.own.x" in steps[0] else "b")
    A, D, B = ("a", "length"), ("a", "detail", "depth"), ("x", "c", "length")
    for uses in USES:
        uses = (uses + uses)[:4]
        yield settings, "electrical", "no settings", [None] * 4, uses
        yield settings, "electrical", "settings once", [None, ("new", {A: 5, B: 6}), None, None], uses
        yield settings, "electrical", "settings twice", [None, ("new", {A: 5, B: 6}), ("new", {D: 7}), None], uses
        yield settings, "electrical", "settings late", [None, None, ("new", {A: 5, D: 6}), ("new", {A: 8})], uses
        yield parameters, "electrical", "arguments of the system", [{"solver_name": "one"}, {}, {"solver_name": "two"}, {}], uses
        yield settings, "electrical", "a view of the settings", [None, ("view", {A: 5, D: 6}), ("view", {A: 8}), None], uses
    yield memory, "electrical", "memory"


def work(n):
    """one of the jobs, in a process of its own; what it found"""
    ctx = harness.Ctx.__new__(harness.Ctx)
    ctx.__dict__.update(WORK["ctx"].__dict__)
    ctx.obligations, ctx.violations, ctx.samples, ctx.info, ctx._seen = {}, [], [], {}, set()
    f, *a = WORK["jobs"][n]
    attempt(ctx, ctx.prog, f, *a)
    return ctx.obligations, ctx.violations, ctx.samples, ctx.info.get("undecided", [])


WORK = {}


def run(ctx):
    WORK["ctx"], WORK["jobs"] = ctx, list(jobs())
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for obligations, violations, samples, undecided in pool.imap(work, range(len(WORK["jobs"]))):
            for k, (a, b) in obligations.items():
                o = ctx.obligations.setdefault(k, [0, 0])
                o[0] += a
                o[1] += b
            for v in violations:
                if v["key"] not in ctx._seen:
                    ctx._seen.add(v["key"])
                    ctx.violations.append(v)
            for x in samples:
                if len([s for s in ctx.samples if s["rule"] == x["rule"]]) < 3:
                    ctx.samples.append(x)
            for u in undecided:
                ctx.undecided(u)
    stale(ctx, ctx.prog)
    ctx.info["scripts"] = len(WORK["jobs"])
    if not ctx.violations:
        ctx.floor("stale", 10)
        ctx.floor("rebuilt", 250)
        ctx.floor("untouched", 450)
        ctx.floor("settings", 200)
        ctx.floor("anew", 12)
