"""Port-key flow of the elements: what each element requests during the port
resolution phase, and what it inserts during the matrix phase, both as effects
computed from the source (see interp.py)."""
import ast
import itertools
from fractions import Fraction

from .interp import Interp, C, NONE, walk, contains, neg, atoms, mk_and, subst, show, SELF, _distinct
from .loader import AnalysisBroken, is_property
from .algebra import new_budget

ALGO = ("param", "ALGO")
NEEDS = {"port_coupling_needed", "coherent_sources_needed", "prev_solution_needed",
         "coherent_sources_perturb_needed", "readout_port_needed", "drive_port_needed"}
MEMB = {"port_update_get": "new", "port_full_get": "full", "port_set_get": "old"}
F_KEY = "\U0001d4d5"     # classical frequency key, resolved from base.ports below
Q_KEY = "\u03a8"
POL_KEY = "\u2931"

EMPTY = ("empty",)


class Need:
    __slots__ = ("port", "key", "members", "guards", "eff", "vars", "initial")


class Member:
    __slots__ = ("port", "key", "role", "nf")

    def __init__(self, port, key, role):
        self.port, self.key, self.role = port, key, role


def strip(t):
    """ports_pre_get / ports_post_get only name an internal copy of the same logical port."""
    if not isinstance(t, tuple) or not t or t[0] == "const":
        return t
    t = tuple(strip(x) if isinstance(x, tuple) else x for x in t)
    while t and t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("ports_pre_get", "ports_post_get") and len(t[2]) == 1:
        t = t[2][0]
    return t


class ElementFlow:
    def __init__(self, prog, ci, opaque=(), alias=None, expand="alias"):
        """opaque: overridable methods of the element left uninterpreted; alias: attributes that are the same object as another"""
        alias = alias or {}
        new_budget()
        self.prog = prog
        self.ci = ci
        self.opaque = frozenset(opaque)
        algo_cls = prog.get_class("phasor.system.ports_algorithm", "PortUpdatesAlgorithm")
        if "symmetric_update" not in algo_cls.members:
            raise AnalysisBroken("PortUpdatesAlgorithm.symmetric_update vanished")
        self.it = Interp(prog, ci, expand=expand, opts={"inst_inline": {ALGO: (algo_cls, {"symmetric_update"})}, "opaque_methods": self.opaque, "alias": alias})
        self.it.constructor_state()
        self.it.run_method("system_setup_ports_initial", [ALGO])
        n0 = len(self.it.effects)
        self.it.run_method("system_setup_ports", [ALGO])
        self.needs = []
        for i, e in enumerate(self.it.effects):
            if e.kind == "call" and e.func[0] == "attr" and e.func[1] == ALGO and e.func[2] in NEEDS:
                n = Need()
                n.port, n.key = strip(e.args[0]), strip(e.args[1])
                n.members, n.vars = memberships(e.loops)
                n.guards = tuple(strip(self.it.reify(g)) for g in e.guards)
                n.eff = e
                n.initial = i < n0
                self.needs.append(n)
        self.it2 = Interp(prog, ci, expand=expand, opts={"opaque_methods": self.opaque, "alias": alias})
        self.it2.constructor_state()
        self.it2.run_method("system_setup_coupling", [ALGO])
        self.inserts = []
        for e in self.it2.effects:
            if e.kind == "call" and e.func[0] == "attr" and e.func[1] == ALGO and e.func[2] in (
                    "port_coupling_insert", "nonlinear_triplet_insert", "coherent_sources_insert"):
                self.inserts.append(e)
        self._optical = {}
        self.polar = any(contains(t, lambda x: x[:1] == ("global",) and x[1].split(":")[-1] in ("PolP", "PolS"))
                         for e in self.it.effects + self.it2.effects if e.kind == "call" for t in e.args + e.guards)

    def insert_parts(self, e):
        """-> list of Member, value term, memberships of the surrounding loops"""
        m = e.func[2]
        a = [strip(x) for x in e.args]
        kw = dict((k, strip(v)) for k, v in e.kwargs)
        members = []

        def get(i, *names):
            if i < len(a):
                return a[i]
            for n in names:
                if n in kw:
                    return kw[n]
            raise AnalysisBroken("cannot read argument %d of %s at %s" % (i, m, e.loc))

        def pair(t, role):
            if t[0] == "tuple" and len(t[1]) == 2:
                return Member(t[1][0], t[1][1], role)
            return Member(("item", t, C(0)), ("item", t, C(1)), role)
        if m == "port_coupling_insert":
            members.append(Member(get(0, "pfrom"), get(1, "kfrom"), "from"))
            members.append(Member(get(2, "pto"), get(3, "kto"), "to"))
            val = get(4, "cplg")
            for x in a[5:]:
                members.append(pair(x, "source"))
        elif m == "nonlinear_triplet_insert":
            members.append(pair(get(0, "pkfrom1"), "from"))
            members.append(pair(get(1, "pkfrom2"), "source"))
            members.append(pair(get(2, "pkto"), "to"))
            val = get(3, "cplg")
        else:
            members.append(Member(get(0, "pto"), get(1, "kto"), "to"))
            val = get(2, "val")
            for x in a[3:]:
                members.append(pair(x, "source"))
        mem, _ = memberships(e.loops)
        guards = tuple(strip(self.it2.reify(g)) for g in e.guards)
        return members, val, mem, guards

    # -------------------------------------------------------------- optical
    def is_optical(self, port):
        if port in self._optical:
            return self._optical[port]
        base = port
        while base[0] == "attr" and base[1] != SELF:
            base = base[1]
        r = None
        if base[0] == "attr" and base[1] == SELF:
            q = self.prog.lookup(self.ci, base[2])
            if q and isinstance(q[1], ast.FunctionDef):
                names = [n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(q[1]) if isinstance(n, (ast.Attribute, ast.Name))]
                cls = [n for n in names if "Port" in n]
                if cls:
                    r = any("Optical" in n for n in cls)
        if r is None:
            mod = self.ci.module.name
            # undeclared port (collection element, constructor argument): by the package
            r = ".optics." in mod and "Optical" in " ".join(c.name for c in self.prog.mro(self.ci))
        self._optical[port] = r
        return r


def memberships(loops):
    """-> [(kind, port, keyterm)], set of element variables"""
    out, vs = [], []
    todo = [(strip(elem), strip(coll)) for elem, coll, tok in loops]
    while todo:
        e, coll = todo.pop(0)
        if coll[0] == "enumerate*" and e[0] == "tuple":
            todo.insert(0, (e[1][1], coll[1]))
            for x in walk(e[1][0]):
                if x and x[0] == "idx" and x not in vs:
                    vs.append(x)
            continue
        if coll[0] == "zip*" and e[0] == "tuple":
            todo[:0] = list(zip(e[1], coll[1]))
            continue
        while coll[0] == "call" and coll[1][0] == "global" and coll[1][1] in (
                "builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.sorted") and coll[2]:
            coll = coll[2][0]
        for x in walk(e):
            if x and x[0] in ("elem", "idx") and x not in vs:
                vs.append(x)
        if coll[0] == "call" and coll[1][0] == "attr" and coll[1][1] == ALGO and coll[1][2] in MEMB:
            out.append((MEMB[coll[1][2]], coll[2][0], e))
        elif coll[0] == "ite":
            for side in (coll[2], coll[3]):
                if side[0] == "call" and side[1][0] == "attr" and side[1][1] == ALGO and side[1][2] in MEMB:
                    out.append((MEMB[side[1][2]], side[2][0], e))
        elif coll[0] == "call" and coll[1][0] == "attr" and coll[1][2] == "union" and coll[1][1][0] == "call":
            out.append(("full", coll[1][1][2][0], e))
    return out, vs


def is_member(t):
    """element of one of the algorithm's port key sets"""
    return bool(t) and t[0] == "elem" and bool(memberships(((t, t[1], 0),))[0])


def sign_atoms(c, out):
    if not isinstance(c, tuple) or not c or c[0] == "const":
        return
    if c[0] == "cmp" and c[1] in ("<", "<=", "==") and C(0) in c[2:]:
        q = c[3] if c[2] == C(0) else c[2]
        if q not in out:
            out.append(q)
        return
    if c[0] in ("and", "or"):
        for x in c[1]:
            sign_atoms(x, out)
    elif c[0] == "not":
        sign_atoms(c[1], out)


def sign_eval(c, signs, base):
    """Kleene evaluation of a guard in the sign domain {-1, 0, 1}."""
    if c[0] == "cmp" and c[1] in ("<", "<=", "==") and C(0) in c[2:]:
        q = c[3] if c[2] == C(0) else c[2]
        if q in signs:
            a = 0 if c[2] == C(0) else signs[q]
            b = 0 if c[3] == C(0) else signs[q]
            return {"<": a < b, "<=": a <= b, "==": a == b}[c[1]]
    if c[0] == "and":
        v = [sign_eval(x, signs, base) for x in c[1]]
        return False if False in v else (None if None in v else True)
    if c[0] == "or":
        v = [sign_eval(x, signs, base) for x in c[1]]
        return True if True in v else (None if None in v else False)
    if c[0] == "not":
        v = sign_eval(c[1], signs, base)
        return None if v is None else not v
    return base(c)


# ----------------------------------------------------------------- key algebra
class Keys:
    """Normal forms of port keys:  (rest, frequency, quantum).

    frequency is a linear form over the frequencies of set elements; quantum is
    'L'/'R'/None; rest is everything else (optical carrier, polarisation)."""

    def __init__(self, flow, cases, facts=()):
        self.flow = flow
        self.cases = cases          # elem term -> 'L' | 'R'
        self.env = {}
        self.optical = {}           # elem -> bool
        self.nonnull = set()        # ports known to exist
        self.facts = set(facts)     # normalized guards assumed true
        self.zero = set()           # frequency atoms known to vanish

    def atom(self, t):
        if t in self.env:
            return self.env[t]
        opt = self.optical.get(t, True)
        c = self.cases.get(t, (None, None))
        f = () if ("F", t) in self.zero else ((("F", t), Fraction(1)),)
        return (("rest", t) if opt else EMPTY, f, c[0] if opt else None, c[1] if opt else None)

    LIT = {"LOWER": (2, "L"), "RAISE": (2, "R"), "PolP": (3, "P"), "PolS": (3, "S")}

    def key(self, t):
        """-> (rest, frequency, quantum, polarization)"""
        if t in self.env:
            return self.env[t]
        k = t[0]
        if k == "elem" or (k == "item" and t[1][0] != "dict" and not (t[2] == C(F_KEY))):
            return self.atom(t)
        if k == "global":
            lit = self.LIT.get(t[1].split(":")[-1])
            if lit:
                r = [EMPTY, None, None, None]
                r[lit[0]] = lit[1]
                return tuple(r)
        if k == "ite":
            d = self.decide(t[1])
            if d is True:
                return self.key(t[2])
            if d is False:
                return self.key(t[3])
            a, b = self.key(t[2]), self.key(t[3])
            if a == b:
                return a
            return None
        if k == "new" and t[1].endswith(":DictKey") and len(t[2]) == 1 and t[2][0][0] == "dict":
            rest, f, q, pol = [], None, None, None
            for kk, vv in t[2][0][1]:
                if kk == C(F_KEY):
                    f = self.freq(vv)
                    if f is None:
                        return None
                elif kk == C(Q_KEY):
                    q = {"\u2191": "R", "\u2193": "L"}.get(vv[1]) if vv[0] == "const" else None
                elif kk == C(POL_KEY) and vv[0] == "const":
                    pol = vv[1]
                else:
                    rest.append((kk, self.canon(vv)))
            return (("dict", tuple(sorted(rest, key=repr))) if rest else EMPTY, f, q, pol)
        if k == "bin" and t[1] == "|":
            a, b = self.key(t[2]), self.key(t[3])
            if a is None or b is None:
                return None
            rest = a[0] if b[0] == EMPTY else (b[0] if a[0] == EMPTY else ("or", a[0], b[0]))
            return (rest, b[1] if b[1] is not None else a[1], b[2] or a[2], b[3] or a[3])
        if k == "bin" and t[1] == "-":
            a, b = self.key(t[2]), self.key(t[3])
            if a is None or b is None:
                return None
            if b[0] != EMPTY:
                return None
            return (a[0], None if b[1] is not None else a[1], None if b[2] else a[2], None if b[3] else a[3])
        if k == "call" and t[1][0] == "attr" and t[1][2] in ("without_keys", "purge_keys"):
            a = self.key(t[1][1])
            if a is None:
                return None
            rest, f, q, pol = a
            for x in t[2]:
                if x == C(F_KEY):
                    f = None
                elif x == C(Q_KEY):
                    q = None
                elif x == C(POL_KEY):
                    pol = None
                elif rest != EMPTY:
                    rest = ("without", rest, x)
            return (rest, f, q, pol)
        if k == "call" and t[1][0] == "attr" and t[1][2] == "replace_keys":
            r = t[1][1]
            for x in t[2]:
                r = ("bin", "|", r, ("new", "x:DictKey", (x,), ()) if x[0] == "dict" else x)
            return self.key(r)
        return (("opaquekey", t), None, None, None)

    def freq(self, t):
        """linear form as sorted tuple, or None"""
        k = t[0]
        if k == "item" and t[2] == C(F_KEY):
            kk = self.key(t[1])
            if kk is not None and kk[1] is None and kk[0] != EMPTY and kk[0][0] == "opaquekey":
                return ((("fopaque", t), Fraction(1)),)
            return kk[1] if kk is not None else None
        if k == "new" and t[1].endswith(":FrequencyKey") and t[2] and t[2][0] == ("dict", ()):
            return ()
        if k == "un" and t[1] == "-":
            f = self.freq(t[2])
            return None if f is None else lin_scale(f, Fraction(-1))
        if k == "bin" and t[1] in ("+", "-"):
            a, b = self.freq(t[2]), self.freq(t[3])
            if a is None or b is None:
                return None
            return lin_add(a, lin_scale(b, Fraction(-1)) if t[1] == "-" else b)
        if k == "bin" and t[1] == "*":
            for i, x in ((2, t[2]), (3, t[3])):
                if x[0] == "un" and x[1] == "-":
                    f = self.freq(t[:i] + (x[2],) + t[i + 1:])
                    return None if f is None else lin_scale(f, Fraction(-1))
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x[0] == "const" and isinstance(x[1], int):
                    f = self.freq(y)
                    return None if f is None else lin_scale(f, Fraction(x[1]))
        if k == "ite":
            d = self.decide(t[1])
            if d is True:
                return self.freq(t[2])
            if d is False:
                return self.freq(t[3])
            a, b = self.freq(t[2]), self.freq(t[3])
            return a if a == b else None
        return ((("fopaque", self.canon(t)), Fraction(1)),)

    def visited(self, t):
        """a key was handled by an earlier iteration of a loop over a set of keys: never when each
        iteration marks only its own key; when it marks +f and -f, exactly one of the two comes first"""
        x = self.key(t[2])
        added = [self.key(a) for a in t[3]]
        if x is None or x[1] is None or any(a is None for a in added):
            return None
        added = set(added)
        if added == {x}:
            return C(False)
        nx = (x[0], lin_scale(x[1], -1)) + tuple(x[2:])
        if added != {x, nx}:
            return None
        if x == nx:
            return C(False)
        return ("visited", x) if repr(x) < repr(nx) else ("not", ("visited", nx))

    def canon(self, t):
        """Replace key expressions inside an otherwise opaque term by their normal forms."""
        if not isinstance(t, tuple) or not t or t[0] == "const":
            return t
        if t in self.env or (t[0] == "elem" and is_member(t)):
            return ("NF",) + (self.key(t) or (t,))
        if t[0] == "item" and t[2] == C(F_KEY):
            f = self.freq(t)
            if f is not None:
                return ("FQ", f)
        if t[0] == "bin" and t[1] in ("+", "-") and contains(t, lambda x: x == C(F_KEY)):
            f = self.freq(t)
            if f is not None:
                return ("FQ", f)
        if t[0] == "item" and t[2][0] == "const" and t[2] not in (C(Q_KEY), C(POL_KEY)) and contains(t[1], lambda x: x[:1] == ("elem",) and is_member(x)):
            kk = self.key(t[1])
            if kk is not None and kk[0] != EMPTY:
                return ("ritem", kk[0], t[2])
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "reject_classical_frequency_order" and t[2]:
            f = self.freq(t[2][0])
            if f is not None:
                return ("reject", f)
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "classical_frequency_test_max" and t[2]:
            kk = self.key(t[2][0])
            if kk is not None and kk[1] is not None:
                return ("maxcut", kk[1]) + tuple(self.canon(x) for x in t[2][1:])
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("contains", "subkey_has") and len(t[2]) == 1:
            b = self.key(t[2][0])
            v = self.lit_match(self.key(t[1][1]), b)
            if v is not None:
                return v
        if t[0] == "bin" and t[1] == "&":
            a, b = self.key(t[2]), self.key(t[3])
            for x, y in ((a, b), (b, a)):
                v = self.lit_match(x, y)
                if v is not None:
                    return v
            for u, w in ((t[2], t[3]), (t[3], t[2])):
                if u in self.env or u[0] == "elem":
                    kk = self.key(u)
                    if kk is not None:
                        # a selection key names carrier and polarisation entries only
                        return ("sel", kk[0], kk[3], self.canon(w))
                    return ("bin", "&", self.canon(u), w)
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "DC_is":
            f = self.freq(t[1][1])
            if f is not None:
                return dc_cond(f)
        if t[0] == "visited":
            v = self.visited(t)
            if v is not None:
                return v
        if t[0] == "cmp" and t[1] == "==":
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x == NONE:
                    if y in self.nonnull or y[0] in ("list", "tuple", "dict", "set"):
                        return C(False)
                    if y[0] in ("bin", "new"):
                        return C(False)
                    if y[0] == "ite":
                        a = self.canon(("cmp", "==", NONE, y[2]))
                        b = self.canon(("cmp", "==", NONE, y[3]))
                        if NONE == y[2]:
                            a = C(True)
                        if NONE == y[3]:
                            b = C(True)
                        c = self.canon(y[1])
                        from .interp import mk_or
                        return mk_or([mk_and([c, a]), mk_and([neg(c), b])])
                    if y[0] == "call" and y[1][0] == "attr" and y[1][2] in ("without_keys", "replace_keys"):
                        return C(False)
            # the parts of two keys
            if t[2][0] == t[3][0] == "item" and t[2][2] == t[3][2] and t[2][2] in (C(Q_KEY), C(POL_KEY)):
                i = 2 if t[2][2] == C(Q_KEY) else 3
                a, b = self.key(t[2][1]), self.key(t[3][1])
                if a is not None and b is not None and a[i] and b[i]:
                    return C(a[i] == b[i])
            # two declared ports, or a port against a collection of ports
            if _distinct(t[2], t[3]) or (t[2][0] in ("list", "tuple")) != (t[3][0] in ("list", "tuple")):
                return C(False)
            # equality of two keys / two frequencies
            if t[2][0] in ("bin", "call", "item", "elem", "ite", "un", "new"):
                fa, fb = self.keyish(t[2]), self.keyish(t[3])
                if fa is not None and fb is not None:
                    if fa == fb:
                        return C(True)
                    if fa[0] == "FQ" and fb[0] == "FQ":
                        return dc_cond(lin_add(fa[1], lin_scale(fb[1], -1)))
                    if fa[0] == "NF" and fb[0] == "NF" and fa[1] == fb[1] and fa[3:] == fb[3:] and fa[2] is not None and fb[2] is not None:
                        # keys that agree in everything else: equal when their frequencies are
                        return dc_cond(lin_add(fa[2], lin_scale(fb[2], -1)))
                    return ("cmp", "==") + tuple(sorted((fa, fb), key=repr))
        if t[0] == "and":
            return mk_and([self.canon(x) for x in t[1]])
        if t[0] == "or":
            from .interp import mk_or
            return mk_or([self.canon(x) for x in t[1]])
        if t[0] == "not":
            return neg(self.canon(t[1]))
        return tuple(self.canon(x) if isinstance(x, tuple) else x for x in t)

    @staticmethod
    def lit_match(a, b):
        """truth of 'key a carries the single literal entry b'"""
        if a is None or b is None or b[0] != EMPTY or b[1] is not None:
            return None
        if b[2] and not b[3] and a[2]:
            return C(a[2] == b[2])
        if b[3] and not b[2] and a[3]:
            return C(a[3] == b[3])
        return None

    def keyish(self, t):
        if t[0] == "item" and t[2] == C(F_KEY) or (t[0] == "un") or (t[0] == "bin" and t[1] in "+-" and contains(t, lambda x: x == C(F_KEY))):
            f = self.freq(t)
            return ("FQ", f) if f is not None else None
        if contains(t, lambda x: x and x[0] == "elem"):
            k = self.key(t)
            return ("NF",) + k if k is not None else None
        return None

    def assume(self, c):
        if c[0] == "and":
            for x in c[1]:
                self.assume(x)
        if c[0] == "DC" and len(c[1]) == 1:
            self.zero.add(c[1][0][0])
        self.facts.add(c)

    def decide(self, cond):
        c = self.canon(cond)
        return self.known(c)

    def known(self, c):
        r = self._known(c)
        if r is None:
            qs = []
            sign_atoms(c, qs)
            if 0 < len(qs) <= 4:
                vals = set()
                for a in itertools.product((-1, 0, 1), repeat=len(qs)):
                    signs = dict(zip(qs, a))
                    if any(sign_eval(f, signs, lambda x: None) is False for f in self.facts):
                        continue
                    vals.add(sign_eval(c, signs, self._known))
                if len(vals) == 1:
                    return next(iter(vals))
        return r

    def _known(self, c):
        if c == C(True):
            return True
        if c == C(False):
            return False
        if c in self.facts:
            return True
        if neg(c) in self.facts:
            return False
        if c[0] == "and":
            v = [self.known(x) for x in c[1]]
            if all(x is True for x in v):
                return True
            if any(x is False for x in v):
                return False
        if c[0] == "or":
            v = [self.known(x) for x in c[1]]
            if any(x is True for x in v):
                return True
            if all(x is False for x in v):
                return False
        if c[0] == "not":
            v = self.known(c[1])
            return None if v is None else not v
        return None


def lin_add(a, b):
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v
    return tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=repr))


def lin_scale(a, s):
    return tuple(sorted(((k, v * s) for k, v in a if v * s != 0), key=repr))


def dc_cond(lin):
    """condition that a frequency is DC, the same for any multiple of it"""
    if not lin:
        return C(True)
    return ("DC", lin_scale(lin, 1 / Fraction(lin[0][1])))


def unify(pat, term, vs, sig):
    """One-way matching of a request's term (variables vs) against an insert's term."""
    if pat in vs:
        if pat in sig:
            return sig if sig[pat] == term else None
        if pat[0] == "elem" and term[0] == "elem":
            # same collection (its own variables matched as well)
            s2 = unify(pat[1], term[1], vs, sig)
            if s2 is None:
                return None
            s2 = dict(s2)
            s2[pat] = term
            return s2
        if pat[0] == "idx" and term[0] == "idx":
            s2 = dict(sig)
            s2[pat] = term
            return s2
        if pat[0] == "elem":
            # literal member of the collection the request quantifies over
            if pat[1][0] in ("list", "tuple", "set") and term in pat[1][1]:
                s2 = dict(sig)
                s2[pat] = term
                return s2
        return None
    if pat == term:
        return sig
    if isinstance(pat, tuple) and isinstance(term, tuple) and len(pat) == len(term) and pat and pat[0] == term[0] and pat[0] != "const":
        for a, b in zip(pat, term):
            if isinstance(a, tuple) and isinstance(b, tuple):
                sig = unify(a, b, vs, sig)
                if sig is None:
                    return None
            elif a != b:
                return None
        return sig
    return None
