"""C12: which components exist where: bonds, owners and the propagation of requests."""
import itertools
import random

from sa.algebra import NotAlgebraic
from sa.evalterm import Point
from sa.interp import C, NONE, FALSE, TRUE, SurelyFails, Value, show
from sa.keyvals import Freq, Key, new_key
from sa.loader import AnalysisBroken
from sa.objects import World, Unreadable

PORTS = "phasor.system.ports_algorithm"
SYSTEM = "phasor.system.system"
BAD = (NotAlgebraic, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, Unreadable, StopIteration, ArithmeticError)

EXPLANATION = (
    "The port engine is analysed as a transformer from bonds, owners and the requests of abstract elements (propagating, mixing and "
    "observing ones, reacting only to the components reported to them) to the declared components of every port, for several orders in "
    "which pending owners are taken. The result must be the least set closed under bonds and the elements' requests. The system's bonding, "
    "ownership and frequency bookkeeping is analysed the same way.")
ASSUMPTIONS = ["small systems stand for all: ports and components are treated only through equality and set membership"]


class El(Value):
    """an abstract element: rules reacting to reported components, initial requests"""

    def __init__(self, name, ports=(), virtual=(), rules=(), initial=(), silent=False):
        self.name, self.ports, self.virtual, self.rules, self.initial, self.silent = name, list(ports), list(virtual), list(rules), list(initial), silent
        self.seen = set()

    def __repr__(self):
        return "El(%s)" % self.name

    def attr(self, it, name):
        if self.silent and name in ("system_setup_ports", "system_setup_ports_initial"):
            raise SurelyFails("AttributeError: %s" % name)
        return None

    def method(self, it, name, args, kw):
        if name == "system_setup_ports_initial":
            for kind, p, k, sets in self.initial:
                a = [C(p), C(k)] + ([("tuple", tuple(C(s) for s in sets))] if sets else [])
                it.call(it.get_attr(args[0], kind), a, [], None)
            return NONE
        if name == "system_setup_ports":
            algo = args[0]
            for p in self.ports + self.virtual:
                for k in members(it, it.call(it.get_attr(algo, "port_update_get"), [C(p)], [], None)):
                    self.seen.add((p, k))
            for r in self.rules:
                r(it, algo)
            return NONE
        return None


def members(it, t):
    c = it.iter_concrete(t)
    if c is None:
        raise Unreadable("open set %s" % show(t)[:60])
    if any(l or g for _, l, g in c):
        raise Unreadable("conditional members")
    return [x[1] for x, _, _ in c]


def need(it, algo, p, k, how="port_coupling_needed"):
    it.call(it.get_attr(algo, how), [C(p), C(k)], [], None)


def along(a, b, f=lambda k: k, how="port_coupling_needed"):
    """components at a are wanted at b"""
    def rule(it, algo):
        for k in members(it, it.call(it.get_attr(algo, "port_update_get"), [C(a)], [], None)):
            if f(k) is not None:
                need(it, algo, b, f(k), how)
    rule.close = lambda d: [(b, f(k)) for k in d.get(a, ()) if f(k) is not None]
    return rule


def product(k1, k2):
    n = tuple(x + y for x, y in zip(k1, k2))
    return n if max(map(abs, n)) <= 2 else None


class Subset(Value):
    """the members of a pool sharing the parity of another component"""

    def __init__(self, pool):
        self.pool = pool


def subset_call(w, func, args):
    if func == C("subset"):
        return C(Subset(frozenset(members(w.it, args[0]))))
    if func[0] == "const" and isinstance(func[1], Subset):
        return w.list([C(k) for k in sorted(func[1].pool) if same_parity(k, args[0][1])])
    return None


def same_parity(x, y):
    return (sum(x) + sum(y)) % 2 == 0


def mixing(a, b, out, part=False):
    """every pair of components at a and b is wanted at out"""
    def rule(it, algo):
        r = it.call(it.get_attr(algo, "symmetric_update"), [C(a), C(b)] if not isinstance(b, list) else [C(a), it_list(it, b)],
                    [("subset_second", C("subset")), ("subset_first", C("subset"))] if part else [], None)
        c = it.iter_concrete(r)
        if c is None or any(l or g for _, l, g in c):
            raise Unreadable("open pairs %s" % (str(c and [x for x in c if x[1] or x[2]][:1] or r)[:1500]))
        for t, _, _ in c:
            k = product(t[1][0][1], t[1][1][1])
            if k is not None:
                need(it, algo, out, k)

    def close(d):
        bs = b if isinstance(b, list) else [b]
        return [(out, product(x, y)) for x in d.get(a, ()) for q in bs for y in d.get(q, ()) if product(x, y) and (not part or same_parity(x, y))]
    rule.close = close
    return rule


def it_list(it, xs):
    h = it.new_heap("list")
    it.heap[h[1]].items = [(C(x), (), ()) for x in xs]
    return h


def closure(els, bonds):
    d = {p: set() for e in els for p in e.ports}
    near = {}
    for a, b in bonds:
        near.setdefault(a, set()).add(b)
        near.setdefault(b, set()).add(a)
    todo = [(p, k) for e in els for kind, p, k, sets in e.initial]
    while todo:
        p, k = todo.pop()
        group, stack = set(), [p]
        while stack:
            q = stack.pop()
            if q not in group:
                group.add(q)
                stack += near.get(q, ())
        for q in group:
            d.setdefault(q, set()).add(k)
        todo += [x for e in els for r in e.rules for x in r.close(d) if x[1] not in d[x[0]]]
    return d


def systems():
    a, b = (1, 0), (0, 1)
    R, D, S = "readout_port_needed", "drive_port_needed", "coherent_sources_needed"
    yield "a chain read at its end", [
        El("src", ["s.o"]), El("gain", ["g.i", "g.o"], rules=[along("g.i", "g.o"), along("g.o", "g.i")]),
        El("read", ["r.i"], initial=[(R, "r.i", a, ("DC",)), (R, "r.i", b, ("AC", "DC"))], silent=False)], [("s.o", "g.i"), ("g.o", "r.i")]
    yield "a split bond", [
        El("src", ["s.o"], initial=[(D, "s.o", a, ("AC",))]), El("x", ["x.i", "x.o"], rules=[along("x.i", "x.o")]), El("y", ["y.i", "y.o"], rules=[along("y.o", "y.i"), along("y.i", "y.o")]),
        El("z", ["z.i"], initial=[(S, "z.i", b, ())])], [("s.o", "x.i"), ("s.o", "y.i"), ("x.o", "z.i"), ("y.o", "z.i")]
    yield "a mixer", [
        El("lo", ["lo.o"], initial=[(S, "lo.o", a, ()), (S, "lo.o", (-1, 0), ())]), El("rf", ["rf.o"], initial=[(S, "rf.o", b, ())]),
        El("mix", ["m.a", "m.b", "m.o"], rules=[mixing("m.a", "m.b", "m.o")]), El("read", ["r.i"])], [("lo.o", "m.a"), ("rf.o", "m.b"), ("m.o", "r.i")]
    yield "a mixer of matching components", [
        El("lo", ["lo.o"], initial=[(S, "lo.o", a, ()), (S, "lo.o", (-1, 1), ())]), El("rf", ["rf.o"], initial=[(S, "rf.o", b, ()), (S, "rf.o", (2, 0), ())]),
        El("d1", ["d1.i", "d1.o"], rules=[along("d1.o", "d1.i"), along("d1.i", "d1.o", lambda k: product(k, (0, 1)))]),
        El("mix", ["m.a", "m.b", "m.o"], rules=[mixing("m.a", "m.b", "m.o", True)]), El("read", ["r.i"])], [("lo.o", "m.a"), ("rf.o", "d1.i"), ("d1.o", "m.b"), ("m.o", "r.i")]
    yield "a mixer fed by its own product", [
        El("lo", ["lo.o"], initial=[(S, "lo.o", a, ())]),
        El("mix", ["m.a", "m.b", "m.o"], rules=[mixing("m.a", "m.b", "m.o"), mixing("m.b", "m.a", "m.o")]),
        El("loop", ["l.i", "l.o"], rules=[along("l.i", "l.o")], initial=[(S, "l.o", b, ())])], [("lo.o", "m.a"), ("m.o", "l.i"), ("l.o", "m.b")]
    yield "a squarer", [
        El("src", ["s.o"], initial=[(S, "s.o", a, ()), (S, "s.o", (0, -1), ())]), El("sq", ["q.i", "q.o"], rules=[mixing("q.i", "q.i", "q.o")])], [("s.o", "q.i")]
    yield "a mixer with two outputs", [
        El("lo", ["lo.o"], initial=[(S, "lo.o", a, ())]), El("r1", ["r1.i"], initial=[(R, "r1.i", b, ("I",))]), El("r2", ["r2.i"], initial=[(R, "r2.i", (0, -1), ("Q",))]),
        El("mix", ["m.a", "m.b", "m.1", "m.2"], rules=[mixing("m.a", ["m.1", "m.2"], "m.b")])], [("lo.o", "m.a"), ("m.1", "r1.i"), ("m.2", "r2.i")]
    yield "observers of a shared port", [
        El("node", ["n.i", "n.o"], rules=[along("n.i", "n.o")]), El("v1", ["v1.o"], virtual=["n.i", "n.o"], rules=[along("n.i", "v1.o"), along("n.o", "v1.o")]),
        El("v2", ["v2.o"], virtual=["n.i"], rules=[along("n.i", "v2.o"), along("v2.o", "n.o")]), El("src", ["s.o"], initial=[(S, "s.o", a, ())]),
        El("read", ["r.i"], initial=[(R, "r.i", b, ("AC",))])], [("s.o", "n.i"), ("v2.o", "r.i")]
    yield "a mixer of an observed port", [
        El("node", ["n.i", "n.o"], rules=[along("n.i", "n.o")]), El("mix", ["m.b", "m.o"], virtual=["n.i", "n.o"], rules=[mixing("n.i", "m.b", "m.o"), mixing("m.b", "n.o", "m.o")]),
        El("src", ["s.o"], initial=[(S, "s.o", a, ())]), El("d1", ["d1.i", "d1.o"], rules=[along("d1.i", "d1.o")]), El("d2", ["d2.i", "d2.o"], rules=[along("d2.i", "d2.o")]),
        El("lo", ["lo.o"], initial=[(S, "lo.o", b, ())])], [("s.o", "n.i"), ("lo.o", "d1.i"), ("d1.o", "d2.i"), ("d2.o", "m.b")]
    yield "a mixer of matching components of an observed port", [
        El("node", ["n.i", "n.o"], rules=[along("n.i", "n.o")]), El("mix", ["m.b", "m.o"], virtual=["n.i"], rules=[mixing("m.b", "n.i", "m.o", True)]),
        El("src", ["s.o"], initial=[(S, "s.o", a, ()), (S, "s.o", (1, 1), ())]), El("d1", ["d1.i", "d1.o"], rules=[along("d1.i", "d1.o")]),
        El("lo", ["lo.o"], initial=[(S, "lo.o", b, ()), (S, "m.b", (0, -1), ())])], [("s.o", "n.i"), ("lo.o", "d1.i"), ("d1.o", "m.b")]
    yield "an element asking at its own ports", [
        El("el", ["e.a", "e.b", "e.c"], rules=[along("e.a", "e.b"), along("e.b", "e.c"), along("e.c", "e.a", lambda k: product(k, a))], initial=[(S, "e.a", (-2, 1), ())])], []
    yield "fields of the previous order", [
        El("src", ["s.o"], initial=[(S, "s.o", a, ())]), El("x", ["x.i", "x.o"], rules=[along("x.i", "x.o", lambda k: product(k, b), "prev_solution_needed")]),
        El("y", ["y.i", "y.o"], rules=[along("y.i", "y.o", how="coherent_sources_perturb_needed")]), El("z", ["z.i"])], [("s.o", "x.i"), ("x.o", "y.i"), ("y.o", "z.i")]
    yield "a mixer with two outputs asked late", [
        El("lo", ["lo.o"], initial=[(S, "lo.o", a, ())]), El("d1", ["d1.i", "d1.o"], rules=[along("d1.o", "d1.i")]), El("d2", ["d2.i", "d2.o"], rules=[along("d2.o", "d2.i")]),
        El("r1", ["r1.i"], initial=[(R, "r1.i", b, ("I",))]), El("r2", ["r2.i"], initial=[(R, "r2.i", (0, -1), ("Q",))]),
        El("mix", ["m.a", "m.b", "m.1", "m.2"], rules=[mixing("m.a", ["m.1", "m.2"], "m.b")])], [("lo.o", "m.a"), ("m.1", "d1.i"), ("m.2", "d2.i"), ("d1.o", "r1.i"), ("d2.o", "r2.i")]
    yield "a ring", [
        El("r%d" % i, ["r%d.i" % i, "r%d.o" % i], rules=[along("r%d.i" % i, "r%d.o" % i), along("r%d.o" % i, "r%d.i" % i)], initial=[(S, "r%d.o" % i, (i, 1), ())] if i < 2 else []) for i in range(4)], \
        [("r%d.o" % i, "r%d.i" % ((i + 1) % 4)) for i in range(4)]
    yield "a passive element without requests", [El("src", ["s.o"], initial=[(S, "s.o", a, ())]), El("dead", ["d.i"], silent=True), El("x", ["x.i"])], [("s.o", "d.i"), ("s.o", "x.i")]


def where(prog, module, cname, mname):
    ci = prog.get_class(module, cname)
    m = ci.members.get(mname)
    return "%s:%d" % (ci.module.path, m.lineno if m is not None else ci.node.lineno)


def pop_order(w, rng, late=None):
    """pending sets have no order: members are taken in any"""
    plain = w.it.heap_method

    def method(obj, name, args, kwargs, node):
        h = w.it.heap[obj[1]]
        if name == "pop" and not args and h.kind == "set" and len(h.items) > 1:
            rng.shuffle(h.items)
            if late is not None:
                h.items.sort(key=lambda x: x[0] == C(late))
        return plain(obj, name, args, kwargs, node)
    w.it.heap_method = method


def engine(ctx, prog, title, make, order):
    els, bonds = make()
    at = where(prog, PORTS, "PortUpdatesAlgorithm", "coherent_sources_needed")

    def calls(w, func, args, kw):
        return subset_call(w, func, args)
    w = World(prog, exact=True, objects=("PortUpdatesAlgorithm",), calls=calls, decide=lambda it, c: decide(it, c))
    late = order if isinstance(order, str) else None
    rng = random.Random(0 if late else order)
    pop_order(w, rng, next((e for e in els if e.name == late), None))
    es = list(els)
    if order and not late:
        rng.shuffle(es)
    pairs = {}
    for a, b in bonds:
        pairs.setdefault(a, []).append(b)
    virt = {}
    for e in els:
        for p in e.virtual:
            virt.setdefault(p, []).append(e)
    vdict = w.dict([(C(p), w.set([C(e) for e in s])) for p, s in virt.items()])
    w.it.heap[vdict[1]].default = ("global", "builtins.set")
    system = w.it.fresh(w.cls(SYSTEM, "BGSystem"))
    for k, v in dict(elements=w.list([C(e) for e in es]), bond_pairs=w.dict([(C(a), w.dict([(C(b), C(1)) for b in bs])) for a, bs in pairs.items()]),
                     port_owners=w.dict([(C(p), C(e)) for e in els for p in e.ports]), port_owners_virtual=vdict,
                     owners_ports=w.dict([(C(e), w.list([C(p) for p in e.ports])) for e in els]),
                     owners_ports_virtual=w.dict([(C(e), w.list([C(p) for p in e.virtual])) for e in els])).items():
        w.it.store[(system, k)] = v
    algo = w.new(w.cls(PORTS, "PortUpdatesAlgorithm"), system=system)
    want = closure(els, bonds)
    label = "%s, %s last" % (title, late) if late else "%s, order %d" % (title, order)
    got = {}
    for k, v, g in w.entries(w.attr(algo, "port_cplgs")):
        got[k[1]] = set(members(w.it, v))
    mute = set(p for e in els if e.silent for p in e.ports)
    for p in sorted(set(want) - mute):
        lack, extra = want[p] - got.get(p, set()), got.get(p, set()) - want[p]
        ctx.check(not lack and not extra, "declared", label, at, "at %s: missing %s, unexpected %s" % (p, sorted(lack)[:3], sorted(extra)[:3]))
    for e in els:
        if e.silent:
            continue
        lack = set((p, k) for p in e.ports + e.virtual for k in want[p]) - e.seen
        ctx.check(not lack, "reported", "%s: %s" % (label, e.name), at, "its components %s are never reported to it" % sorted(lack)[:3])
    for kind, table in (("readout_port_needed", "readout_pk_sets"), ("drive_port_needed", "drive_pk_sets")):
        ask = {}
        for e in els:
            for k, p, c, sets in e.initial:
                if k == kind:
                    for s in sets:
                        ask.setdefault(s, set()).add((p, c))
        have = {k[1]: set((t[1][0][1], t[1][1][1]) for t in [x for x, _, _ in w.it.iter_concrete(v)]) for k, v, g in w.entries(w.attr(algo, table))}
        ctx.check(ask == have, "named sets", "%s: %s" % (label, table), where(prog, PORTS, "PortUpdatesAlgorithm", kind), "holds %s" % sorted(have.items())[:3])


# ---------------------------------------------------------------- bonds
PACKS = {"electronics": ("phasor.electronics.ports", "ElectricalPort", "pe_A"), "mechanical": ("phasor.mechanical.ports", "MechanicalPort", "pm_A"),
         "optics": ("phasor.optics.ports", "OpticalPort", "po_Fr")}
GRAPHS = [  # bonds between ports 0, 1, ...
    ("a pair", 2, [(0, 1)]), ("two pairs", 4, [(0, 1), (3, 2)]), ("one port alone", 1, []), ("a pair and two alone", 4, [(2, 1)]),
    ("a star", 4, [(0, 1), (0, 2), (0, 3)]), ("a star bonded from its tips", 4, [(1, 0), (2, 0), (3, 0)]), ("a chain of bonds", 4, [(0, 1), (1, 2), (2, 3)]),
    ("two joined stars", 6, [(0, 1), (0, 2), (3, 4), (3, 5), (3, 0)]), ("a star of five with one alone", 7, [(6, 0), (6, 1), (2, 6), (3, 6), (6, 4)])]


class Bonds:
    """a system whose objects are analysed as they are: ports, bonding, automatic terminators, junctions"""

    def __init__(self, prog):
        self.prog = prog
        w = self.w = World(prog, exact=True, calls=self.calls, decide=self.decide, new_hook=self.new, values=("DictKey", "FrequencyKey"), ambient={}, recursion=8)
        it = w.it
        it.opts["fn_hook"] = self.fn
        self.parent, self.count, self.made, self.inside = {}, 0, {}, 0
        assign, member, attr = it.assign, it.member_value, it.get_attr

        def assign2(t, v, aug=None):
            assign(t, v, aug)
            if t.__class__.__name__ == "Attribute" and v[0] == "inst":
                self.adopt(v, it.ev(t.value), t.attr)

        def member2(dc, m, name, selfterm, viasuper=False):
            v = member(dc, m, name, selfterm, viasuper)
            if v[0] == "inst" and selfterm[0] == "inst" and not viasuper:
                self.adopt(v, selfterm, name)
            return v

        def attr2(base, name, node=None):
            v = attr(base, name, node)
            if v == ("attr", base, name) and base in it.selfcls:
                raise SurelyFails("AttributeError: %s" % name)
            return v
        it.assign, it.member_value, it.get_attr = assign2, member2, attr2
        self.system = it.fresh(w.cls(SYSTEM, "BGSystem"))
        self.parent[self.system] = None
        it.store[(self.system, "name_system")] = C("sys")
        it.store[(self.system, "_registry_children")] = w.dict([])
        it.store[(self.system, "_frozen")] = FALSE
        it.store[(self.system, "building")] = FALSE
        it.opts["ambient"].update(system=self.system)

    def adopt(self, obj, parent, name):
        """what attaching an object to its parent does"""
        it = self.w.it
        if obj in self.parent or parent not in self.parent:
            return
        if len(self.parent) > 150:
            raise SurelyFails("setting up does not end: ever more objects are added")
        self.parent[obj] = parent
        full = it.store[(parent, "name_system")][1] + "." + name
        for k, v in dict(parent=parent, name_child=C(name), name=C(name), name_system=C(full), building=FALSE, _registry_children=self.w.dict([]), owned_ports=self.w.dict([]),
                         inst_preincarnation=NONE).items():
            it.store[(obj, k)] = v
        reg = it.heap[it.store[(parent, "_registry_children")][1]]
        reg.items = reg.items + [(C(name), obj, (), ())]
        it.get_attr(obj, "_include")
        for p in "ioXYZ":
            try:
                it.get_attr(obj, p)
            except SurelyFails as ex:
                if "AttributeError" not in str(ex):
                    raise
        for k, v in self.made.get(obj, ()):
            it.store[(obj, k)] = v
        name = self.w.it.selfcls[obj].name
        if name in ("TerminatorOpen", "VacuumTerminator"):
            pk = [k for k in PACKS if it.selfcls[obj].module.name.startswith("phasor." + k)][0]
            p = it.fresh(self.prog.get_class(*PACKS[pk][:2]))
            it.store[(obj, PACKS[pk][2])] = p
            self.adopt(p, obj, PACKS[pk][2])
        else:
            self.w.call(obj, "__build__")

    def new(self, it, qual, args, kw, node=None):
        k = new_key(it, qual, args, kw, node)
        if k is not None:
            return k
        name = qual.split(":")[-1]
        if name in ("PortUpdatesAlgorithm", "MatrixBuildAlgorithm", "SystemSolver"):
            return C(name)
        obj = it.fresh(it._class_by_qual(qual))
        self.made[obj] = list(kw)
        return obj

    def fn(self, it, fv, args, kw, node):
        name = getattr(fv.node, "name", None)
        if name == "insert":
            obj = args[0]
            at = (args[1] if len(args) > 1 else dict(kw).get("name"))
            if at is None or at[0] != "const":
                raise Unreadable("name of an inserted object")
            it.store[(fv.bound, at[1])] = obj
            self.adopt(obj, fv.bound, at[1])
            return obj
        if name == "_complete":
            return TRUE
        return None

    def calls(self, w, func, args, kw):
        it = w.it
        if func == ("global", "builtins.hasattr") and args[1][0] == "const":
            try:
                it.get_attr(args[0], args[1][1])
                return TRUE
            except SurelyFails:
                return FALSE
        if func[0] == "global" and func[1].startswith("warnings."):
            return NONE
        if func == ("global", "builtins.callable"):
            return C(args[0][0] == "const" and isinstance(args[0][1], Returns) or args[0][0] == "func")
        if func[0] == "const" and isinstance(func[1], Returns) and not args:
            return func[1].v
        return None

    def decide(self, it, c):
        if c[0] == "cmp" and c[1] in ("==", "is", "in") and any(x[0] == "inst" for x in c[2:]) and c[3][0] in ("inst", "const"):
            return c[2] == c[3] if c[1] != "in" else None
        if c[0] == "cmp" and c[1] in ("is", "==") and any(x[0] == "global" and x[1].endswith("NOARG") for x in c[2:]):
            return c[2] == c[3]
        if c[0] == "isinstance" and c[2][0] == "global" and c[2][1].split(".")[-1] == "str" and c[1][0] in ("const", "inst"):
            return c[1][0] == "const" and isinstance(c[1][1], str)
        return decide(it, c)

    def port(self, module, cname, name, **kw):
        it = self.w.it
        el = it.fresh(self.prog.get_class("phasor.base.bases", "SystemElementBase"))
        it.store[(self.system, name)] = el
        self.adopt(el, self.system, name)
        p = it.fresh(self.prog.get_class(module, cname))
        self.made[p] = list(kw.items())
        it.store[(el, "p")] = p
        self.adopt(p, el, "p")
        return p

    def pairs(self):
        w = self.w
        return set((a[1], b[1]) for a, d, _ in w.entries(w.attr(self.system, "bond_pairs")) for b, v, _ in w.entries(d))


def bonded(ctx, prog, name, pack, n, edges, flip):
    mod, cname, _ = PACKS[pack]
    at = where(prog, mod, cname, "bond_completion")
    b = Bonds(prog)
    w = b.w
    ports = [b.port(mod, cname, "e%d" % i) for i in range(n)]
    for x, y in edges:
        if flip:
            w.call(b.system, "bond", ports[y], ports[x])
        else:
            w.call(ports[x], "bond", ports[y])
    w.call(b.system, "_setup_sequence")
    judge(ctx, prog, name, b, at, ports, edges)


def signal_bonds(ctx, prog, name, kinds, edges, flip):
    mod = "phasor.signals.ports"
    at = where(prog, mod, "SignalOutPortBase", "bond_completion")
    b = Bonds(prog)
    w = b.w
    cls = {"o": "SignalOutPort", "i": "SignalInPort", "n": "SignalNode"}
    ports = [b.port(mod, cls[k], "e%d" % n) for n, k in enumerate(kinds)]
    for n, k in enumerate(kinds):
        if k == "n":
            b.w.attr(ports[n], "node")
    for x, y in edges:
        w.call(*((b.system, "bond", ports[y], ports[x]) if flip else (ports[x], "bond", ports[y])))
    w.call(b.system, "_setup_sequence")
    keys = [dict((io, b.w.attr(p, io)[1]) for io in ("io" if k == "n" else k)) for k, p in zip(kinds, ports)]
    want = set((keys[x]["o"], keys[y]["i"]) for x, y in edges)
    have = b.pairs()
    ctx.check(have == want, "bonds", name, at, "%d bonds missing, %d unexpected" % (len(want - have), len(have - want)))
    owners = dict((k[1], v) for k, v, g in w.entries(w.attr(b.system, "port_owners")))
    listed = dict((k, [x[1] for x in w.elems(v)]) for k, v, g in w.entries(w.attr(b.system, "owners_ports")))
    for p, ks in zip(ports, keys):
        el = b.parent[p]
        for k in ks.values():
            ctx.check(owners.get(k) == el and k in listed.get(el, ()), "owned", "%s: %s" % (name, w.it.store[(p, "name_system")][1]), at, "a port wave is not registered with its element")
    ctx.check(len(set(k for ks in keys for k in ks.values())) == sum(len(set(ks.values())) for ks in keys), "distinct", name, at, "two ports share one name")


def axes(ctx, prog, name, n, edges, flip):
    mod = "phasor.mechanical.ports"
    at = where(prog, mod, "MechanicalXYZPort", "bond_delegate")
    b = Bonds(prog)
    w = b.w
    ports = [b.port(mod, "MechanicalXYZPort", "e%d" % i) for i in range(n)]
    for x, y in edges:
        w.call(*((b.system, "bond", ports[y], ports[x]) if flip else (ports[x], "bond", ports[y])))
    w.call(b.system, "_setup_sequence")
    flat = [b.w.attr(p, x) for x in "XYZ" for p in ports]
    judge(ctx, prog, name, b, at, flat, [(x + i * n, y + i * n) for i in range(3) for x, y in edges])


def indirect(ctx, prog, name, pack, flip):
    """bonds made through stand-in ports reach the ports inside"""
    mod, cname, _ = PACKS[pack]
    b = Bonds(prog)
    w = b.w
    ports = [b.port(mod, cname, "e%d" % i) for i in range(4)]
    out = b.port("phasor.base.ports", "PortIndirect", "x", inner_port=ports[0])
    far = b.port("phasor.base.ports", "PortIndirect", "y", inner_port=out)
    w.call(*((b.system, "bond", ports[1], out) if flip else (out, "bond", ports[1])))
    other = b.port("phasor.base.ports", "PortIndirect", "z", inner_port=ports[2])
    w.call(*((b.system, "bond", other, ports[3]) if flip else (b.system, "bond", ports[3], other)))
    w.call(b.system, "_setup_sequence")
    judge(ctx, prog, name, b, where(prog, "phasor.base.ports", "PortIndirect", "bond"), ports, [(0, 1), (2, 3)])


def sequence(ctx, prog, name, pack, how):
    """bonding in sequence continues at the chained port of each element passed"""
    mod, cname, _ = PACKS.get(pack) or ("phasor.mechanical.ports", "MechanicalXYZPort", None)
    b = Bonds(prog)
    w = b.w
    ins = [b.port(mod, cname, "e%d" % i) for i in range(4)]
    outs = []
    for p in ins:
        el = b.parent[p]
        q = w.it.fresh(prog.get_class(mod, cname))
        w.it.store[(el, "q")] = q
        b.adopt(q, el, "q")
        outs.append(q)
        v = C("q") if how == "name" else q if how == "port" else C(Returns(q))
        w.it.store[(p, "pchain")] = v
    via = list(ins)
    if how == "stand-in":
        via = []
        for i, p in enumerate(ins):
            w.it.store[(p, "pchain")] = NONE
            via.append(b.port("phasor.base.ports", "PortIndirect", "s%d" % i, inner_port=p))
            w.it.store[(via[-1], "pchain")] = outs[i] if i % 2 else C(Returns(outs[i]))
    w.call(outs[0], "bond_sequence", *via[1:])
    w.call(b.system, "_setup_sequence")
    if pack == "axes":
        flat = [b.w.attr(p, x) for x in "XYZ" for p in ins + outs]
        return judge(ctx, prog, name, b, where(prog, SYSTEM, "BGSystem", "bond_sequence"), flat, [(x + i * 8, y + i * 8) for i in range(3) for x, y in [(4, 1), (5, 2), (6, 3)]])
    judge(ctx, prog, name, b, where(prog, SYSTEM, "BGSystem", "bond_sequence"), ins + outs, [(4, 1), (5, 2), (6, 3)])


def listed_bonds(ctx, prog, name, pack, n, free):
    """a junction given the ports it connects"""
    mod, cname, _ = PACKS[pack]
    ci = prog.get_class("phasor.%s.elements" % pack, "Connection")
    b = Bonds(prog)
    w = b.w
    ports = [b.port(mod, cname, "e%d" % i) for i in range(n)]
    j = w.it.fresh(ci)
    b.made[j] = [("N_ports", C(free)), ("connect", ("tuple", tuple(ports)))]
    w.it.store[(b.system, "j")] = j
    b.adopt(j, b.system, "j")
    w.call(b.system, "_setup_sequence")
    judge(ctx, prog, name, b, where(prog, "phasor.%s.elements" % pack, "Connection", "__build__"), ports, [(0, i) for i in range(1, n)], free)


def in_parallel(ctx, prog, name, pack, flip):
    """two elements of two terminals bonded terminal by terminal"""
    mod, cname, t = PACKS[pack]
    base = t[:3] if "_" in t else t
    ci = prog.get_class("phasor.%s.elements" % pack, pack.capitalize().replace("Electronics", "Electrical") + "2PortBase")
    b = Bonds(prog)
    w = b.w
    els, ports = [], []
    for i in range(3):
        el = w.it.fresh(ci)
        b.made[el] = []
        w.it.store[(b.system, "e%d" % i)] = el
        mine = []
        for x in "AB":
            p = w.it.fresh(prog.get_class(mod, cname))
            w.it.store[(el, base + x)] = p
            mine.append((p, base + x))
        b.adopt(el, b.system, "e%d" % i)
        for p, x in mine:
            b.adopt(p, el, x)
        els.append(el)
        ports += [p for p, x in mine]
    first, second = (els[1], els[0]) if flip else (els[0], els[1])
    w.call(first, "bond_series", second)
    w.call(b.system, "_setup_sequence")
    judge(ctx, prog, name, b, where(prog, "phasor.%s.elements" % pack, ci.name, "bond_series"), ports, [(0, 2), (1, 3)])


class Returns(Value):
    def __init__(self, v):
        self.v = v


def chains(ctx, prog):
    """the chained port of a port is one of the same element, and chained back"""
    import ast
    for ci in prog.all_classes():
        to, where_ = {}, {}
        for name, m in ci.members.items():
            if not isinstance(m, ast.FunctionDef):
                continue
            for n in ast.walk(m):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "pchain" \
                        and isinstance(n.targets[0].value, ast.Attribute):
                    to[n.targets[0].value.attr] = goal(n.value)
                    where_[n.targets[0].value.attr] = n
                if isinstance(n, ast.Call):
                    for k in n.keywords:
                        if k.arg == "pchain":
                            p = name
                            if m.name in ("__build__", "__init__"):
                                p = next((s.targets[0].attr for s in ast.walk(m) if isinstance(s, ast.Assign) and s.value is n and isinstance(s.targets[0], ast.Attribute)), None)
                            if p is not None:
                                to[p] = goal(k.value)
                                where_[p] = n
        for p, q in sorted(to.items()):
            if q is None:
                continue
            at = "%s:%d" % (ci.module.path, where_[p].lineno)
            back = to.get(q)
            if q not in to:
                r = prog.lookup(ci, q)
                ctx.check(r is not None, "chains", "%s.%s" % (ci.name, p), at, "continues at %s, which the element does not have" % q)
                continue
            ctx.check(back in (p, None) and q != p, "chains", "%s.%s" % (ci.name, p), at, "continues at %s, which itself continues at %s" % (q, back))


def goal(e):
    import ast
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.Lambda):
        e = e.body
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
        return e.attr
    return None


# ---------------------------------------------------------------- frequencies
class Light(Value):
    def __init__(self, name, **kw):
        self.name, self.kw = name, kw

    def __repr__(self):
        return "Light(%s)" % self.name

    def attr(self, it, name):
        if name in self.kw:
            v = self.kw[name]
            return C(Light(self.name + "." + name, val=v)) if name == "F_Hz" else C(v)
        return None


def frequencies(ctx, prog, name):
    at = lambda m: where(prog, SYSTEM, "BGSystem", m)
    for default in (2, 3):
        lights = [Light("A", order=None, F_Hz=7., iwavelen_m=11., F_center_Hz=13.), Light("B", order=0, F_Hz=17., iwavelen_m=19., F_center_Hz=23.),
                  Light("C", order=1, F_Hz=29., iwavelen_m=31., F_center_Hz=37.), Light("D", order=3, F_Hz=41., iwavelen_m=43., F_center_Hz=47.)]
        sets = [{}] + [{i: n} for i in range(4) for n in range(-4, 5) if n] + [{i: n, j: m} for i in range(4) for j in range(i) for n in (-2, -1, 1, 2, 3) for m in (-3, -1, 1, 2)]
        for d in sets:
            w = freq_world(prog)
            s = w.it.fresh(w.cls(SYSTEM, "BGSystem"))
            w.it.store[(s, "freq_order_max_default")] = C(default)
            key = C(Freq([(C(lights[i]), n) for i, n in d.items()]))
            lim = lambda i, dflt: dflt if lights[i].kw["order"] is None else lights[i].kw["order"]
            label = "%s, default %d" % (" ".join("%+d%s" % (n, lights[i].name) for i, n in sorted(d.items())) or "none", default)
            told(ctx, w.call(s, "reject_classical_frequency_order", key), any(abs(n) > lim(i, default) for i, n in d.items()), "orders", "modulations " + label, at("reject_classical_frequency_order"))
            told(ctx, w.call(s, "reject_optical_frequency_order", key), not d or any(n > lim(i, 2) or n < 1 for i, n in d.items()), "orders", "carriers " + label, at("reject_optical_frequency_order"))
            if default == 2 and len(d) < 2 or len(d) == 2 and sum(d.values()) % 3 == 0:
                k2 = C(Key({"𝓕": key, "F⇝": key}))
                f = sum(n * lights[i].kw["F_Hz"] for i, n in d.items())
                x = sum(n * lights[i].kw["iwavelen_m"] for i, n in d.items())
                told(ctx, w.call(s, "classical_frequency_extract", k2), f, "sums", "frequency " + label, at("classical_frequency_extract"))
                r = w.call(s, "optical_frequency_extract", k2)
                r = w.elems(r)
                told(ctx, r[0], x, "sums", "wavenumber " + label, at("optical_frequency_extract"))
                told(ctx, r[1], f, "sums", "optical offset " + label, at("optical_frequency_extract"))
                told(ctx, w.call(s, "classical_frequency_extract_center", key), sum(n * lights[i].kw["F_center_Hz"] for i, n in d.items()), "sums", "center " + label, at("classical_frequency_extract_center"))
                for top in (None, 5., 40.):
                    told(ctx, w.call(s, "classical_frequency_test_max", k2, C(top)), top is not None and abs(f) >= top, "orders", "limit %s %s" % (top, label), at("classical_frequency_test_max"))


def freq_world(prog):
    def calls(w, func, args, kw):
        if func == ("global", "builtins.abs") and args[0][0] == "const":
            return C(abs(args[0][1]))
        if func[0] == "global" and func[1].endswith(".any") and len(args) == 1:
            return args[0]
        return None

    def dec(it, c):
        if c[0] == "cmp" and "shape" in str(c):
            return False
        if c[0] == "cmp" and all(x[0] == "const" and isinstance(x[1], (int, float)) for x in c[2:]):
            a, b = c[2][1], c[3][1]
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}.get(c[1])
        return decide(it, c)
    return World(prog, exact=True, calls=calls, decide=dec, new_hook=new_key, values=("DictKey", "FrequencyKey"))


def told(ctx, got, want, rule, name, at):
    got = ("const", bool(got[1])) if isinstance(want, bool) and got[0] == "const" else got
    if isinstance(want, bool):
        if got[0] != "const":
            raise Unreadable("open answer for %s" % name)
        ctx.check(got[1] == want, rule, name, at, "answers %s" % got[1])
        return
    v = Point(3)(got)[0]
    ctx.check(abs(v - want) < 1e-9, rule, name, at, "gives %s instead of %s" % (v, want))


def virtual(ctx, prog, name):
    b = Bonds(prog)
    w = b.w
    at = where(prog, SYSTEM, "BGSystem", "own_port_virtual")
    p = [b.port(*PACKS["electronics"][:2], "e%d" % i) for i in range(2)]
    els = [b.parent[x] for x in p]
    k = [w.attr(x, io) for x in p for io in "io"]
    for el, port in [(els[0], k[2]), (els[0], k[3]), (els[1], k[0]), (els[0], k[0])]:
        w.call(b.system, "own_port_virtual", el, port)
    of = dict((x, set(w.elems(v))) for x, v, g in w.entries(w.attr(b.system, "port_owners_virtual")))
    by = dict((x, set(w.elems(v))) for x, v, g in w.entries(w.attr(b.system, "owners_ports_virtual")))
    ctx.check(dict((x, y) for x, y in of.items() if y) == {k[2]: {els[0]}, k[3]: {els[0]}, k[0]: set(els)}, "owned", name + ": owners of a port", at, "wrong owners")
    ctx.check(dict((x, y) for x, y in by.items() if y) == {els[0]: {k[2], k[3], k[0]}, els[1]: {k[0]}}, "owned", name + ": ports of an owner", at, "wrong ports")


def adaptors(ctx, prog, name):
    """the summing points before and after a port are new points, registered with their port"""
    at = where(prog, SYSTEM, "BGSystem", "ports_pre_get")
    b = Bonds(prog)
    w = b.w
    p = b.port(*PACKS["electronics"][:2], "e")
    keys = [w.attr(p, "i"), w.attr(p, "o")]
    got = {}
    for k in keys:
        for kind in ("pre", "post"):
            got[(k, kind)] = w.call(b.system, "ports_%s_get" % kind, k)
    ctx.check(len(set(got.values()) | set(keys)) == 6, "distinct", name, at, "two of a port and its summing points share one name")
    for kind in ("pre", "post"):
        reg = dict((k, v) for k, v, g in w.entries(w.attr(b.system, "ports_" + kind)))
        ctx.check(reg == dict((k, got[(k, kind)]) for k in keys), "owned", "%s: %s" % (name, kind), at, "a summing point is not registered with its port")
    again = w.call(b.system, "ports_pre_get", keys[0])
    ctx.check(again == got[(keys[0], "pre")], "owned", name + ": asked again", at, "gives another summing point when asked again")


def judge(ctx, prog, name, b, at, ports, edges, free=0):
    w = b.w
    pairs = b.pairs()
    it = w.it
    allp = [o for o in b.parent if o is not None and o in it.selfcls and prog.lookup(it.selfcls[o], "bond_completion") and (o, "o") in it.store and (o, "i") in it.store]
    ins = dict((it.store[(p, "i")][1], p) for p in allp)
    outs = dict((it.store[(p, "o")][1], p) for p in allp)
    ctx.check(len(ins) == len(outs) == len(allp) and not set(ins) & set(outs), "distinct", name, at, "two port waves share one name")
    link = {}
    bad = [x for x in pairs if x[0] not in outs or x[1] not in ins]
    ctx.check(not bad, "bonds", name + ": direction", at, "a bond does not lead from an outgoing to an incoming wave: %s" % bad[:1])
    for x, y in pairs:
        if (x, y) not in bad:
            link.setdefault(outs[x], set()).add(ins[y])
    for p in allp:
        to = link.get(p, set())
        back = [q for q in allp if p in link.get(q, ())]
        ctx.check(len(to) == 1 and back == list(to) and p not in to, "bonds", "%s: %s" % (name, it.store[(p, "name_system")][1]), at,
                  "sends to %d ports and receives from %d" % (len(to), len(back)))
    # what is joined: elements joined through the ideal nodes
    root = {p: p for p in allp}

    def find(x):
        while root[x] != x:
            x = root[x]
        return x
    count = 0
    for p in allp:
        for q in link.get(p, ()):
            if find(p) != find(q):
                root[find(p)] = find(q)
    nodes = {}
    for p in allp:
        el = b.parent[p]
        if it.selfcls[el].name == "Connection":
            nodes.setdefault(el, []).append(p)
    loops = 0
    for ps in nodes.values():
        for p in ps[1:]:
            loops += find(p) == find(ps[0])
            root[find(p)] = find(ps[0])
    ctx.check(not loops, "bonds", name + ": loops", at, "the ideal nodes of a bond close a loop")
    want = {p: p for p in ports}

    def f2(x):
        while want[x] != x:
            x = want[x]
        return x
    for x, y in edges:
        want[f2(ports[x])] = f2(ports[y])
    wrong = [(i, j) for i in range(len(ports)) for j in range(i) if (find(ports[i]) == find(ports[j])) != (f2(ports[i]) == f2(ports[j]))]
    ctx.check(not wrong, "bonds", name + ": joined", at, "ports %s are joined though not bonded, or bonded and not joined" % wrong[:2])
    # ends: every group has at least two ends, terminators only where nothing was bonded
    ends = {}
    for p in allp:
        if it.selfcls[b.parent[p]].name != "Connection":
            ends.setdefault(find(p), []).append(p)
    for g, ps in ends.items():
        own = [p for p in ps if p in want]
        term = [p for p in ps if p not in want]
        ctx.check(len(term) == (1 if len(own) == 1 else 0) + free, "terminated", "%s: %s" % (name, it.store[(ps[0], "name_system")][1]), at, "%d terminators for %d ports" % (len(term), len(own)))
    owners = dict((k[1], v) for k, v, g in w.entries(w.attr(b.system, "port_owners")))
    listed = dict((k, [x[1] for x in w.elems(v)]) for k, v, g in w.entries(w.attr(b.system, "owners_ports")))
    elements = w.elems(w.attr(b.system, "elements"))
    for p in allp:
        el = b.parent[p]
        for k in (it.store[(p, "i")][1], it.store[(p, "o")][1]):
            ctx.check(owners.get(k) == el and k in listed.get(el, ()) and el in elements, "owned", "%s: %s" % (name, it.store[(p, "name_system")][1]),
                      where(prog, SYSTEM, "BGSystem", "port_add"), "a port wave is not registered with its element")


def decide(it, c):
    if c[0] == "not":
        v = decide(it, c[1])
        return None if v is None else not v
    if c[0] == "cmp" and c[1] in ("==", "is") and all(x[0] == "const" for x in c[2:]):
        return c[2][1] == c[3][1]
    if c[0] == "cmp" and c[1] == "==" and any(x[0] == "global" and x[1].endswith("NOARG") for x in c[2:]):
        return c[2] == c[3]
    if c[0] == "cmp" and c[1] == "in" and c[3][0] == "global" and c[3][1].endswith("NOARG"):
        return False
    if c[0] == "cmp" and c[1] in ("==", "is", "!=", "is not") and set(x[0] for x in c[2:]) == {"const", "obj"}:
        return c[1] in ("!=", "is not")
    if c[0] == "cmp" and c[1] in ("!=",) and all(x[0] == "const" for x in c[2:]):
        return c[2][1] != c[3][1]
    return None


def attempt(ctx, prog, name, f, *a):
    try:
        f(ctx, prog, name, *a)
    except SurelyFails as ex:
        ctx.fail("works", name, where(prog, PORTS, "PortUpdatesAlgorithm", "_setup_port_needs"), "fails: %s" % ex)
    except AnalysisBroken:
        raise
    except BAD as ex:
        import os, traceback
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
        ctx.undecided("%s: %s %s" % (name, type(ex).__name__, str(ex)[:160]))


def run(ctx):
    prog = ctx.prog
    for i, (title, els, bonds) in enumerate(systems()):
        for order in list(range(6)) + [e.name for e in els if not e.silent]:
            attempt(ctx, prog, title, engine, lambda i=i: list(systems())[i][1:], order)
    for pack in PACKS:
        for title, n, edges in GRAPHS:
            if pack == "optics" and any(sum(i in e for e in edges) > 1 for i in range(n)):
                continue
            for flip in (0, 1):
                attempt(ctx, prog, "%s ports, %s" % (pack, title), bonded, pack, n, edges, flip)
                if pack == "mechanical" and n < 5:
                    attempt(ctx, prog, "three axes, %s" % title, axes, n, edges, flip)
        for flip in (0, 1):
            attempt(ctx, prog, "%s ports bonded through stand-ins" % pack, indirect, pack, flip)
        if pack != "optics":
            for n, free in ((2, 0), (3, 0), (2, 1), (2, 2)):
                attempt(ctx, prog, "%s ports, junction connecting %d with %d free" % (pack, n, free), listed_bonds, pack, n, free)
            for flip in (0, 1):
                attempt(ctx, prog, "%s elements bonded terminal by terminal" % pack, in_parallel, pack, flip)
        for how in ("name", "port", "function", "stand-in"):
            attempt(ctx, prog, "%s ports in sequence, chained by %s" % (pack, how), sequence, pack, how)
    for how in ("port", "function"):
        attempt(ctx, prog, "three axes in sequence, chained by %s" % how, sequence, "axes", how)
    for title, kinds, edges in [("a signal bond", "oi", [(0, 1)]), ("a split signal", "oiii", [(0, 1), (0, 2), (0, 3)]), ("added signals", "ooi", [(0, 2), (1, 2)]),
                                ("signals crossing", "ooii", [(0, 2), (0, 3), (1, 2), (1, 3)]), ("a node", "oni", [(0, 1), (1, 2)]), ("a shared node", "oonii", [(0, 2), (1, 2), (2, 3), (2, 4)])]:
        for flip in (0, 1):
            attempt(ctx, prog, title, signal_bonds, kinds, edges, flip)
    attempt(ctx, prog, "observed ports", virtual)
    attempt(ctx, prog, "summing points", adaptors)
    attempt(ctx, prog, "frequencies", frequencies)
    chains(ctx, prog)
