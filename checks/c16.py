"""C16: fields interacting along an element exchange energy without gain or loss, and the integrated coupling is exact."""
import ast
import itertools
import os
import traceback

from sa.algebra import NotAlgebraic
from sa.evalterm import Point
from sa.interp import C, NONE, SurelyFails, Value, is_const, show
from sa.keyvals import Freq, Key, new_key
from sa.loader import AnalysisBroken
from sa.objects import Unreadable, World
from checks.c08 import Bunch, CLS, LOWER, OPT, POL, QUANT, Port, RAISE

BAD = (NotAlgebraic, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, Unreadable, StopIteration, ArithmeticError, SurelyFails)
EXPLANATION = (
    "Every element whose field interactions are integrated along its length is found in the source.  Its requests and couplings are interpreted for sets of field components "
    "(carrier multiples, modulation sidebands, polarizations, both quantum parts, signal drives); the rates it declares are read as polynomials of the fields and compared with "
    "conservation of energy and frequency, conjugation symmetry and the gain documented.  The integrator is interpreted for families of such rates with symbolic fields, and its "
    "coupling matrix and sources are compared with the steps it takes.")
ASSUMPTIONS = ["field components are square roots of power; lowering and raising parts are conjugate", "frequency keys are integer combinations"]

FO, G1, G2, DRV = C("F_opt"), C("F_mod"), C("F_mod2"), C("F_drive")
CENTER = {G1: 1e6, G2: 1.7e6, DRV: 80e6}


def fkey(o, c, q, **more):
    return Key(dict({OPT: C(Freq([(FO, o)])), CLS: C(Freq(c)), QUANT: C(q)}, **more))


def ckey(c):
    return Key({CLS: C(Freq(c))})


def flip(k):
    d = dict(k.d)
    if QUANT in d:
        d[QUANT] = C(LOWER if d[QUANT] == C(RAISE) else RAISE)
    else:
        d[CLS] = C(d[CLS][1].scaled(-1))
    return Key(d)


class System(Value):
    def __init__(self, orders, optical):
        self.orders, self.optical = orders, optical

    def method(self, it, name, args, kw):
        f = args[0][1] if args and args[0][0] == "const" else None
        if name == "reject_classical_frequency_order" and isinstance(f, Freq):
            return C(any(abs(n) > self.orders.get(k, 1) for k, n in f.d))
        if name == "reject_optical_frequency_order" and isinstance(f, Freq):
            return C(not f.d or any(n < 1 or n > self.optical for k, n in f.d))
        if name in ("classical_frequency_extract_center", "classical_frequency_extract"):
            if isinstance(f, Key):
                f = f.get(CLS)[1]
            if isinstance(f, Freq):
                return C(float(sum(n * CENTER[k] for k, n in f.d)))
        return None


class Builder(Value):
    """the two phases of building: requests of components, then couplings"""

    def __init__(self, full, update):
        self.full, self.update, self.needed, self.injections = full, update, [], []

    def members(self, it, keys):
        h = it.new_heap("set")
        it.heap[h[1]].items = [(C(k), (), ()) for k in keys]
        return h

    def method(self, it, name, args, kw):
        a = args[0][1] if args and args[0][0] == "const" else None
        if name == "port_update_get":
            return self.members(it, [k for p, k in self.update if p == a])
        if name in ("port_full_get", "port_set_get"):
            return self.members(it, [k for p, k in self.full if p == a])
        if name in ("port_coupling_needed", "prev_solution_needed", "coherent_sources_needed"):
            if it.guards or len(args) != 2 or any(x[0] != "const" for x in args) or not isinstance(args[1][1], Key):
                raise Unreadable("unclear request %s" % (args,))
            x = (a, args[1][1])
            if x not in self.needed:
                self.needed.append(x)
            return NONE
        if name == "injection_insert":
            if it.guards:
                raise Unreadable("conditional injection")
            self.injections.append(args[0])
            return NONE
        return None


class Injection(Value):
    """an integrated coupling as constructed"""

    def __init__(self, args, kw):
        self.args, self.kw = args, dict(kw)


def decide(it, c):
    if c[0] == "not":
        v = decide(it, c[1])
        return None if v is None else not v
    return None


def make_world(prog):
    def hook(it, qual, args, kw, node):
        if qual.split(":")[-1] == "ExpMatCoupling":
            return C(Injection(args, kw))
        return new_key(it, qual, args, kw, node)
    w = World(prog, exact=True, decide=decide, new_hook=hook, values=("DictKey", "FrequencyKey"))
    w.it.opts["recursion"] = 50
    return w


NLG, LEN, PNOM = ("sym", "nlg"), ("sym", "length"), ("sym", "P_nominal")


class Element:
    def __init__(self, ci, kind, ports, drive):
        self.ci, self.kind, self.ports, self.drive = ci, kind, ports, drive

    def attrs(self, system):
        d = {p: C(Port(p)) for p in self.ports}
        if self.drive:
            d[self.drive] = C(Port(self.drive))
        d.update(system=C(system), symbols=C(Bunch(dict(i=C(1j), pi=C(3.141592653589793)))), nlg=NLG, N_ode=C(7), freq_split_Hz=C(40e6), drive_PWR_nominal=PNOM,
                 length_mm=C(Bunch(dict(val=LEN, ref=LEN))))
        return d


def build(prog, el, system, seeds, step=False):
    """component sets requested and the coupling inserted; step: one component at a time"""
    def instance():
        w = make_world(prog)
        obj = w.it.fresh(el.ci)
        for k, v in el.attrs(system).items():
            w.it.store[(obj, k)] = v
        return w, obj
    full, pending = [], list(seeds)
    calls = 0
    while pending:
        calls += 1
        if calls > 400:
            raise Unreadable("requests do not settle")
        now = pending[:1] if step else pending
        pending = pending[len(now):]
        w, obj = instance()
        b = Builder(full + now, now)
        w.call(obj, "system_setup_ports", C(b))
        surely(w)
        full = full + now
        for x in b.needed:
            if x not in full and x not in pending:
                pending.append(x)
    w, obj = instance()
    b = Builder(full, [])
    w.call(obj, "system_setup_coupling", C(b))
    surely(w)
    return w, full, b.injections


def surely(w):
    for e in w.it.effects:
        if e.kind == "raise" and not e.guards:
            raise Failed("the code raises an error")


class Failed(Exception):
    pass


class Rates:
    """the rates of one injection: {(port, key): [(gain, [(port, key)...])]}"""

    def __init__(self, w, inj):
        kw = dict(inj.kw)
        for n, a in zip(("dLt", "in_map", "out_map", "N_ode"), inj.args):
            kw[n] = a
        self.terms, self.ins, self.outs = {}, {}, {}
        for k, v, g in w.entries(kw["dLt"]):
            if g:
                raise Unreadable("conditional rate")
            self.terms[pk(w, k)] = [self.term(w, x) for x in w.elems(v)]
        for name, d in (("in_map", self.ins), ("out_map", self.outs)):
            for k, v, g in w.entries(kw[name]):
                if g:
                    raise Unreadable("conditional map")
                d[pk(w, k)] = None if v == NONE else pk(w, v)
        self.steps = kw.get("N_ode")

    def term(self, w, t):
        x = w.elems(t) if t[0] != "tuple" else list(t[1])
        return x[0], tuple(pk(w, y) for y in x[1:])


def pk(w, t):
    x = list(t[1]) if t[0] == "tuple" else w.elems(t)
    if len(x) != 2 or any(y[0] != "const" for y in x) or not isinstance(x[1][1], Key):
        raise Unreadable("unclear component %s" % show(t)[:60])
    return x[0][1], x[1][1]


def point(seed):
    import random
    r = random.Random(seed)
    return Point(seed, {s: (complex(r.uniform(.4, 1.6)),) * 2 for s in (NLG, LEN, PNOM)})


def amplitude(p, k, seed):
    """a random field with conjugate parts"""
    import random
    low = QUANT in dict(k.d) and k.get(QUANT) == C(RAISE)
    base = flip(k) if low else k
    conj = low
    if QUANT not in dict(k.d):
        f = k.get(CLS)[1].d
        if f and f[0][1] < 0:
            base, conj = flip(k), True
        if not f:
            return complex(random.Random(repr((p, k, seed))).uniform(.3, 1.5))
    r = random.Random(repr((p, base, seed)))
    z = complex(r.uniform(-1, 1), r.uniform(-1, 1))
    return z.conjugate() if conj else z


def signed(k):
    """(optical, modulation) frequency carried into a product"""
    if QUANT in dict(k.d):
        s = 1 if k.get(QUANT) == C(LOWER) else -1
        return k.get(OPT)[1].scaled(s), k.get(CLS)[1].scaled(s)
    return Freq([]), k.get(CLS)[1]


def rest(k):
    return k.drop([OPT, CLS, QUANT])


# ------------------------------------------------------------------ rates along an element
CRYSTAL = dict(through={"po_Fr": "po_Bk", "po_Bk": "po_Fr"}, beams=[{"po_Fr": 1}, {"po_Bk": 1}], partner={})
DEFLECT = dict(through={"po_FrA": "po_BkA", "po_BkA": "po_FrA", "po_FrB": "po_BkB", "po_BkB": "po_FrB"},
               beams=[{"po_FrA": 1, "po_FrB": -1}, {"po_BkA": -1, "po_BkB": 1}],
               partner={"po_FrA": "po_FrB", "po_FrB": "po_FrA", "po_BkA": "po_BkB", "po_BkB": "po_BkA"})


def both(*keys):
    return [k for x in keys for k in (x, flip(x))]


def fields(port, *keys):
    return [(Port(port, "i"), k) for k in both(*keys)]


def L(o, c=(), **kw):
    return fkey(o, c, LOWER, **kw)


def crystal_scenarios():
    for port in ("po_Fr", "po_Bk"):
        yield "one line (%s)" % port, {}, 2, fields(port, L(1))
        yield "second harmonic alone (%s)" % port, {}, 2, fields(port, L(2))
        yield "two polarizations (%s)" % port, {}, 2, fields(port, L(1, **{POL: C("S")}), L(1, **{POL: C("P")}), L(2, **{POL: C("P")}))
        yield "sidebands (%s)" % port, {G1: 2}, 2, fields(port, L(1), L(1, [(G1, 1)]), L(1, [(G1, -1)]))
    yield "sum and second harmonic with sideband", {G1: 1}, 2, fields("po_Fr", L(1), L(2), L(2, [(G1, 1)]))
    yield "unequal sidebands", {G1: 1, G2: 1}, 2, fields("po_Fr", L(1, [(G1, 1)]), L(1, [(G2, -1)]))
    yield "sidebands of line and harmonic", {G1: 1, G2: 1}, 2, fields("po_Bk", L(1, [(G1, 1)]), L(2, [(G2, 1)]))
    yield "sideband of the harmonic", {G1: 2, G2: 1}, 2, fields("po_Fr", L(2, [(G1, 2)]), L(1, [(G1, 1), (G2, 1)]))
    yield "three harmonics", {}, 3, fields("po_Fr", L(1), L(2))
    yield "lowest order only", {G1: 1}, 1, fields("po_Fr", L(1), L(1, [(G1, 1)]))
    yield "both directions", {}, 2, fields("po_Fr", L(1)) + fields("po_Bk", L(1))


def drive(name, *cs):
    return [(Port(name, "i"), ckey(x)) for c in cs for x in (c, [(k, -n) for k, n in c])]


def deflect_scenarios(d):
    for port in sorted(DEFLECT["through"]):
        yield "one line (%s)" % port, {DRV: 2}, 2, fields(port, L(1)) + drive(d, [(DRV, 1)])
    yield "no drive", {DRV: 2}, 2, fields("po_FrA", L(1)) + fields("po_BkB", L(1))
    yield "drive too slow", {DRV: 2, G1: 1}, 2, fields("po_FrA", L(1)) + drive(d, [(G1, 1)])
    yield "drive with sideband", {DRV: 1, G1: 1}, 2, fields("po_FrA", L(1), L(1, [(G1, 1)])) + drive(d, [(DRV, 1)], [(DRV, 1), (G1, 1)])
    yield "both sides, two polarizations", {DRV: 1}, 2, fields("po_FrB", L(1, **{POL: C("S")}), L(1, **{POL: C("P")})) + fields("po_BkA", L(2)) + drive(d, [(DRV, 1)])
    yield "drive requested last", {DRV: 1}, 2, drive(d, [(DRV, 1)]) + fields("po_BkB", L(1))


class Case:
    def __init__(self, prog, el, spec, name, orders, optical, seeds):
        self.el, self.spec, self.orders, self.optical, self.seeds = el, spec, orders, optical, seeds
        system = System(orders, optical)
        self.w, self.full, injections = build(prog, el, system, seeds)
        self.stepped = build(prog, el, system, seeds, step=True)[1]
        self.rates = []
        for x in injections:
            if x[0] != "const" or not isinstance(x[1], Injection):
                raise Unreadable("another kind of coupling")
            self.rates.append(Rates(self.w, x[1]))

    def allowed(self, o, c):
        return bool(o.d) and all(1 <= n <= self.optical for _, n in o.d) and self.small(c)

    def small(self, c):
        return all(abs(n) <= self.orders.get(k, 1) for k, n in c.d)

    def at(self, port, side="i"):
        return [k for p, k in self.full if p == Port(port, side)]

    def products(self):
        """(target, first, second) of every permitted interaction among the components present"""
        for beam in self.spec["beams"]:
            if self.el.drive:
                for p, d in beam.items():
                    for k in self.at(p):
                        s = 1 if k.get(QUANT) == C(LOWER) else -1
                        for kd in self.at(self.el.drive):
                            f = kd.get(CLS)[1]
                            hz = s * d * sum(n * CENTER[x] for x, n in f.d)
                            to = k.over(Key({CLS: C(k.get(CLS)[1].plus(f, s))}))
                            if hz > 40e6 and self.small(to.get(CLS)[1]):
                                yield (Port(self.spec["partner"][p], "i"), to), (Port(p, "i"), k), (Port(self.el.drive, "i"), kd)
            else:
                for p in beam:
                    ks = self.at(p)
                    for a in ks:
                        for b in ks:
                            if rest(a) != rest(b):
                                continue
                            s = 1 if a.get(QUANT) == b.get(QUANT) else -1
                            o, c = a.get(OPT)[1].plus(b.get(OPT)[1], s), a.get(CLS)[1].plus(b.get(CLS)[1], s)
                            if self.allowed(o, c):
                                yield (Port(p, "i"), a.over(Key({OPT: C(o), CLS: C(c)}))), (Port(p, "i"), a), (Port(p, "i"), b)

    def gains(self, seed):
        """target -> {unordered product: total gain}"""
        out, pt = {}, point(seed)
        for r in self.rates:
            for to, terms in r.terms.items():
                d = out.setdefault(to, {})
                for g, ps in terms:
                    v = pt.vec(pt(self.w.it.reify(g)))[0]
                    key = tuple(sorted(ps, key=repr))
                    d[key] = d.get(key, 0) + v
        return out, pt


def describe(x):
    p, k = x
    out = []
    if k.get(OPT) is not None:
        out.append("+".join("%d×carrier" % n for _, n in k.get(OPT)[1].d) or "no carrier")
    out += ["%+d×%s" % (n, f[1]) for f, n in k.get(CLS)[1].d]
    return "%s %s%s" % (p.name, " ".join(out), {RAISE: " (raising)", LOWER: " (lowering)"}.get(k.get(QUANT)[1] if k.get(QUANT) is not None else None, ""))


def case_rules(ctx, prog, el, spec, where, name, orders, optical, seeds):
    c = Case(prog, el, spec, name, orders, optical, seeds)
    label = "%s: %s" % (el.ci.name, name)
    ctx.check(set(c.full) == set(c.stepped), "requests", label, where, "the components requested depend on the order in which they are found: %s" % sorted(describe(x) for x in set(c.full) ^ set(c.stepped))[:2])
    lost = [(p, k) for p in spec["through"] for k in c.at(p) if k not in c.at(spec["through"][p], "o")]
    ctx.check(not lost, "passes", label + " (requested)", where, "not requested behind the element: %s" % [describe((Port(p), k)) for p, k in lost][:2])
    ins, outs = {}, {}
    for r in c.rates:
        ins.update(r.ins)
        outs.update(r.outs)
    stop = [(Port(p, "i"), k) for p in spec["through"] for k in c.at(p)
            if ins.get((Port(p, "i"), k)) != (Port(p, "i"), k) or outs.get((Port(p, "i"), k)) != (Port(spec["through"][p], "o"), k)]
    ctx.check(not stop, "passes", label, where, "light is not passed on: %s" % [describe(x) for x in stop][:3])
    stray = [x for x, y in list(ins.items()) + list(outs.items()) if y is not None and (y[1] != x[1] or y not in c.full and y in outs.values())]
    stray += [x for x, y in outs.items() if y is not None and y[0].name != spec["through"].get(x[0].name)]
    stray += [x for x, y in ins.items() if y is not None and y != x]
    ctx.check(not stray, "places", label, where, "component enters or leaves elsewhere: %s" % [describe(x) for x in stray][:2])
    many = [x for x in ins if sum(x in r.ins for r in c.rates) > 1 and x[0].name != el.drive]
    ctx.check(not many, "places", label + " (once)", where, "component integrated more than once: %s" % [describe(x) for x in many][:2])
    unknown = [x for r in c.rates for to, ts in r.terms.items() for x in [to] + [y for g, ps in ts for y in ps] if x not in r.ins or x not in r.outs]
    ctx.check(not unknown, "places", label + " (known)", where, "component has no place in the integration: %s" % [describe(x) for x in unknown][:2])
    ctx.check(all(r.steps == C(7) for r in c.rates), "steps", label, where, "the number of steps asked for is not used")
    # frequencies
    bad = []
    for r in c.rates:
        for to, ts in r.terms.items():
            o, f = signed(to[1])
            for g, ps in ts:
                so, sf = Freq([]), Freq([])
                for p, k in ps:
                    a, b = signed(k)
                    if el.drive and p.name == el.drive and to[1].get(QUANT) == C(RAISE):
                        # the raising part is written with the conjugate drive
                        b = b.scaled(1)
                    so, sf = so.plus(a), sf.plus(b)
                if (so, sf) != (o, f) or any(rest(k) != rest(to[1]) for p, k in ps if p.name != el.drive):
                    bad.append((to, ps))
                beam = [b for b in spec["beams"] if to[0].name in b]
                if not beam or any(p.name not in beam[0] for p, k in ps if p.name != el.drive):
                    bad.append((to, ps))
    ctx.check(not bad, "frequency", label, where, "%s is fed by %s" % (describe(bad[0][0]), [describe(x) for x in bad[0][1]]) if bad else "")
    want = {}
    for to, a, b in c.products():
        want.setdefault(to, {}).setdefault(tuple(sorted((a, b), key=repr)), 0)
    missing, extra, gain, unconj, energy = [], [], [], [], 0
    for seed in (1, 2, 3):
        got, pt = c.gains(seed)
        nlg, length, nominal = (pt.atoms[s][0].real for s in (NLG, LEN, PNOM))
        for to, d in want.items():
            missing += [(to, ps) for ps in d if abs(got.get(to, {}).get(ps, 0)) < 1e-9]
        for to, d in got.items():
            extra += [(to, ps) for ps, v in d.items() if abs(v) > 1e-9 and ps not in want.get(to, {})]
            for ps, v in d.items():
                if el.drive:
                    size = 3.141592653589793 / 2 / nominal ** .5
                else:
                    size = nlg * length * sum(n for _, n in to[1].get(OPT)[1].d) * (.5 if len(set(ps)) == 1 else 1)
                if ps in want.get(to, {}) and abs(abs(v) - size) > 1e-9:
                    gain.append((to, ps, abs(v) / size))
        amp = {x: amplitude(x[0], x[1], seed) for x in ins}
        value = {}
        for to, d in got.items():
            v = 0
            for ps, g in d.items():
                for p in ps:
                    g = g * amp.get(p, amplitude(p[0], p[1], seed))
                v += g
            value[to] = v
        for to, v in value.items():
            if abs(v - value.get((to[0], flip(to[1])), 0).conjugate()) > 1e-9 * (1 + abs(v)):
                unconj.append(to)
        total = sum(2 * (amplitude(to[0], to[1], seed).conjugate() * v).real for to, v in value.items() if to[1].get(QUANT) == C(LOWER))
        scale = sum(abs(v) for v in value.values()) or 1
        energy = max(energy, abs(total) / scale)
    ctx.check(not missing, "complete", label, where, "%s is not fed by %s" % (describe(missing[0][0]), [describe(x) for x in missing[0][1]]) if missing else "")
    ctx.check(not extra, "frequency", label + " (matched)", where, "%s is fed by %s, which is not phase matched or not allowed" % (describe(extra[0][0]), [describe(x) for x in extra[0][1]]) if extra else "")
    ctx.check(not gain, "gain", label, where, "%s fed by %s with %.4g times the documented gain" % (describe(gain[0][0]), [describe(x) for x in gain[0][1]], gain[0][2]) if gain else "")
    ctx.check(not unconj, "conjugate", label, where, "the two parts of %s change differently" % describe(unconj[0]) if unconj else "")
    ctx.check(energy < 1e-9, "energy", label, where, "the fields exchange energy with gain or loss (relative rate %.3g)" % energy)
    return sum(len(r.terms) for r in c.rates)


# ------------------------------------------------------------------ the integrator
ORDER = 4


class Poly(Value):
    """polynomial in fields and gains, up to a total order in the gains"""

    def __init__(self, d):
        self.d = {m: c for m, c in d.items() if abs(c) > 1e-13}

    @staticmethod
    def var(name):
        return Poly({((name, 1),): 1 + 0j})

    @staticmethod
    def of(t):
        if t[0] == "bin" and t[1] == "/":
            a, b = Poly.of(t[2]), Poly.of(t[3])
            if a is not None and b is not None and set(b.d) == {()}:
                return a.times(Poly({(): 1 / b.d[()]}))
        if t[0] != "const":
            return None
        if isinstance(t[1], Poly):
            return t[1]
        if isinstance(t[1], (int, float, complex)):
            return Poly({(): complex(t[1])})
        return None

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __repr__(self):
        return "Poly(%s)" % (" + ".join("%.4g%s" % (abs(c), "".join(" %s^%d" % x for x in m)) for m, c in sorted(self.d.items())[:3]))

    def plus(self, o, s=1):
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + s * c
        return Poly(d)

    def times(self, o):
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                p = dict(m)
                for k, v in n:
                    p[k] = p.get(k, 0) + v
                if sum(v for k, v in p.items() if k[0] == "g") <= ORDER:
                    q = tuple(sorted(p.items()))
                    d[q] = d.get(q, 0) + c * e
        return Poly(d)

    def diff(self, name):
        d = {}
        for m, c in self.d.items():
            p = dict(m)
            n = p.pop(name, 0)
            if n:
                if n > 1:
                    p[name] = n - 1
                q = tuple(sorted(p.items()))
                d[q] = d.get(q, 0) + n * c
        return Poly(d)

    def upto(self, order):
        return Poly({m: c for m, c in self.d.items() if sum(v for k, v in m if k[0] == "g") <= order})

    def close(self, o):
        return all(abs(c) < 1e-9 for c in self.plus(o, -1).d.values())

    def at(self, point):
        v = 0j
        for m, c in self.d.items():
            for k, n in m:
                c = c * point.atom(("sym", k))[0] ** n
            v += c
        return v

    def unop(self, it, op):
        return C(self.times(Poly({(): -1 + 0j}))) if op == "-" else C(self) if op == "+" else None

    def binop(self, it, op, other, swapped):
        o = Poly.of(other)
        if o is None:
            return None
        a, b = (o, self) if swapped else (self, o)
        if op == "+":
            return C(a.plus(b))
        if op == "-":
            return C(a.plus(b, -1))
        if op == "*":
            return C(a.times(b))
        if op == "/" and set(b.d) == {()}:
            return C(a.times(Poly({(): 1 / b.d[()]})))
        if op == "**" and other[0] == "const" and other[1] in (1, 2, 3) and not swapped:
            r = self
            for _ in range(other[1] - 1):
                r = r.times(self)
            return C(r)
        return None

    def method(self, it, name, args, kw):
        return C(self) if name in ("copy", "squeeze") and not args else None


class Spot(Point):
    """generic values of fields, for conditions"""

    def ev(self, t):
        if t[0] == "const" and isinstance(t[1], Poly):
            return (t[1].at(self),) * self.width
        return Point.ev(self, t)

    def bools(self, t):
        if t[0] == "cmp" and t[1] == "==" and all(Poly.of(x) is not None for x in t[2:4]):
            return (Poly.of(t[2]).close(Poly.of(t[3])),) * self.width
        return Point.bools(self, t)


def T(x):
    return ("tuple", tuple(x))


class Flow:
    """the integrated coupling for given rates [(target, gain, sources)] between numbered components"""

    def __init__(self, prog, n, terms, steps, rank=None, blind=()):
        self.n, self.terms, self.steps = n, terms, steps
        self.ci = prog.get_class("phasor.optics.ODE_solver", "ExpMatCoupling")
        self.ins = [(C(Port("p%d" % i, "i")), C(Key({"k": C(i)}))) for i in range(n)]
        self.outs = [(C(Port("p%d" % i, "o")), C(Key({"k": C(i)}))) for i in range(n)]
        self.blind = blind
        rank = rank or list(range(n))
        self.point = Spot(11)

        def calls(w, func, args, kw):
            name = func[2] if func[0] == "attr" else func[1].split(".")[-1] if func[0] == "global" else None
            if func == ("sym", "prefs"):
                return C(rank[self.ins.index(tuple(args[0][1]))])
            if name in ("empty", "zeros", "ones", "empty_like", "zeros_like") and func[0] == "global" and len(args) == 1 and args[0][0] == "const" and isinstance(args[0][1], int):
                return w.list([NONE if name == "empty" else C(0 if name == "zeros" else 1)] * args[0][1])
            if func[0] == "global" and func[1].startswith("numpy.") and name in ("copy", "asarray", "array") and len(args) == 1 and args[0][0] == "const":
                return args[0]
            return None

        def settle(it, c):
            if c[0] == "not":
                v = settle(it, c[1])
                return None if v is None else not v
            if c[0] == "cmp" and c[1] == "==" and any(x[0] in ("obj", "dict") for x in c[2:4]):
                try:
                    a, b = (sorted(((k, v) for k, v, g in self.w.entries(x)), key=repr) for x in c[2:4])
                    return a == b
                except BAD:
                    return False if NONE in c[2:4] else None
            try:
                return self.point.cond(c)
            except BAD:
                return None

        def order(t):
            if t[0] == "const" and isinstance(t[1], (int, float)):
                return t[1]
            return None
        self.w = w = World(prog, objects=["ExpMatCoupling"], exact=True, decide=settle, order=order, fns={"pk_prefs": lambda w, a, k: ("sym", "prefs")}, calls=calls, values=("DictKey", "FrequencyKey"))
        table = {}
        for to, g, src in terms:
            table.setdefault(to, []).append(T([g] + [T(self.ins[j]) for j in src]))
        self.obj = w.new(self.ci, dLt=w.dict([(T(self.ins[to]), w.list(ts)) for to, ts in table.items()]), in_map=w.dict([(T(p), T(p)) for p in self.ins]),
                         out_map=w.dict([(T(p), NONE if i in blind else T(q)) for i, (p, q) in enumerate(zip(self.ins, self.outs))]), N_ode=C(steps))
        surely(w)

    def linearise(self, x):
        """(coupling {(to, from): term}, sources {to: term}) after the previous solution x (None: component missing)"""
        w = self.w
        sv = w.dict([(T(p), v) for p, v in zip(self.ins, x) if v is not None])
        S, inj = {}, {}
        pairs = w.elems(w.attr(self.obj, "floating_in_out_func_pairs"))
        self.declared = []
        for triple in pairs:
            ins, outs, f = triple[1] if triple[0] == "tuple" else w.elems(triple)
            ins, outs = [tuple(t[1]) for t in w.elems(ins)], [tuple(t[1]) for t in w.elems(outs)]
            for k, v, g in w.entries(w.apply(f, sv, NONE)):
                if g:
                    raise Unreadable("conditional coupling")
                a, b = (tuple(y[1]) for y in k[1])
                S[self.outs.index(b), self.ins.index(a)] = v
                if a not in ins or b not in outs:
                    self.declared.append((a, b))
        srcs = w.attr(self.obj, "sources_pk_dict")
        for k, f, g in w.entries(srcs):
            inj[self.outs.index(tuple(k[1]))] = w.apply(f, sv, NONE)
        surely(w)
        return S, inj


def family():
    g = [C(Poly.var("g%d" % i)) for i in range(6)]
    yield "doubling", 2, [(1, g[0], (0, 0)), (0, g[1], (1, 0))]
    yield "two and their sum", 3, [(2, g[0], (0, 1)), (2, g[0], (1, 0)), (0, g[1], (2, 1)), (1, g[2], (2, 0))]
    yield "chain", 4, [(1, g[0], (0, 0)), (2, g[1], (1, 0)), (3, g[2], (2, 1)), (0, g[3], (3, 3)), (3, g[4], (1, 1))]
    yield "driven", 3, [(1, g[0], (0, 2)), (0, g[1], (1, 2))]
    yield "three waves", 3, [(0, g[0], (1, 2, 1)), (1, g[1], (0, 0, 2)), (2, g[2], (0, 1))]
    yield "idle", 3, [(1, g[0], (0, 0))]
    yield "self", 2, [(0, g[0], (0, 0)), (1, g[1], (0, 1)), (1, g[2], (1, 1))]


def integrator_rules(ctx, prog):
    ci = prog.get_class("phasor.optics.ODE_solver", "ExpMatCoupling")
    where = "%s:%d" % (ci.module.path, ci.node.lineno)
    for name, n, terms in family():
        xs = [C(Poly.var("x%d" % i)) for i in range(n)]
        ys = [C(Poly.var("y%d" % i)) for i in range(n)]
        dark = [C(0) if i else v for i, v in enumerate(xs)]
        histories = {"all fields": [xs], "fields missing": [[v if i == 0 else None for i, v in enumerate(xs)]], "dark fields": [dark], "changed": [xs, ys], "unchanged": [xs, xs],
                     "going dark": [xs, dark], "nothing": [[None] * n], "nothing, then all": [[None] * n, xs], "dark only at the end": [xs, [C(0)] * n]}
        second = {}
        for steps, hist, rank in itertools.product((1, 2, 3), sorted(histories), (None, list(range(n))[::-1])):
            if rank and hist not in ("all fields", "dark fields"):
                continue
            if steps == 3 and (hist not in ("all fields", "dark fields", "changed") or n > 3):
                continue
            blind = (2,) if name == "driven" else ()
            label = "%s, %d step%s, %s%s" % (name, steps, "s" * (steps > 1), hist, ", other order" if rank else "")
            try:
                flow = Flow(prog, n, terms, steps, rank, blind)
                for h in histories[hist]:
                    S, inj = flow.linearise(h)
                out, rate, v = flow_rules(ctx, flow, label, where, h, S, inj)
                if hist in ("all fields", "dark fields"):
                    second[rank is None, hist, steps] = [o.plus(o.upto(1), -1).upto(2) for o in out]
                    if (rank is None, hist, 1) in second and steps > 1:
                        # second order in the gain: a one-step method gives half the rates of the rates, up to a part falling as one over the number of steps
                        half = []
                        for i in range(n):
                            p = Poly({})
                            for j in range(n):
                                nm = [m[0][0] for m in xs[j][1].d][0]
                                p = p.plus(full_rate(terms, xs)[i].diff(nm).times(full_rate(terms, xs)[j]))
                            half.append(at_dark(p, x=h, names=[m[0][0] for q in xs for m in q[1].d]).times(Poly({(): .5 + 0j})))
                        a, b = second[rank is None, hist, 1], second[rank is None, hist, steps]
                        k = 1. / steps
                        lim = [b[i].plus(a[i].times(Poly({(): k})), -1).times(Poly({(): 1 / (1 - k)})) for i in range(n)]
                        off = [i for i in range(n) if i not in blind and not lim[i].close(half[i])]
                        ctx.check(not off, "steps follow", label, where, "with more steps output %s does not approach the flow of the rates" % off[:2])
            except Failed as e:
                ctx.fail("integration", label, where, str(e))
            except BAD as e:
                if os.environ.get("VERIF_TRACE"):
                    traceback.print_exc()
                ctx.undecided("integration %s: %s %s" % (label, type(e).__name__, str(e)[:160]))


def flow_rules(ctx, flow, label, where, x, S, inj):
    n = flow.n
    shown = [i for i in range(n) if i not in flow.blind]
    zero = Poly({})

    def poly(t):
        p = Poly.of(t)
        if p is None:
            raise Unreadable("not a polynomial: %s" % show(t)[:80])
        return p
    v = [zero if t is None else poly(t) for t in x]
    M = {k: poly(t) for k, t in S.items()}
    out = []
    for i in range(n):
        o = poly(inj[i]) if i in inj else zero
        for j in range(n):
            if (i, j) in M:
                o = o.plus(M[i, j].times(v[j]))
        out.append(o)
    ctx.check(not flow.declared, "declared", label, where, "coupling outside the components declared")
    need = set(tuple(t[1]) for t in w_elems(flow))
    lacking = [j for j in range(n) if any(j in src for _, _, src in flow.terms) and flow.ins[j] not in need]
    ctx.check(not lacking, "required", label, where, "the previous values of components %s are used but not asked for" % lacking)
    # exact derivative of the output by every field present
    bad = []
    for j in range(n):
        names = [m[0][0] for m in v[j].d]
        if not names:
            continue
        bad += [(i, j) for i in shown if not out[i].diff(names[0]).close(M.get((i, j), zero))]
    ctx.check(not bad, "derivative", label, where, "the coupling (to, from) %s is not the derivative of the output" % bad[:2])
    # to first order: identity plus the rates, whatever the number of steps
    rate, jac = [zero] * n, {}
    for to, g, src in flow.terms:
        t = g[1]
        for k in src:
            t = t.times(v[k])
        rate[to] = rate[to].plus(t)
        for p, k in enumerate(src):
            t = g[1]
            for q, l in enumerate(src):
                if q != p:
                    t = t.times(v[l])
            jac[to, k] = jac.get((to, k), zero).plus(t)
    off = [i for i in shown if not out[i].upto(1).close(v[i].plus(rate[i]))]
    ctx.check(not off, "rates", label, where, "to first order output %s is not the input plus the rates" % off[:2])
    one = Poly({(): 1 + 0j})
    wrong = [(i, j) for i in shown for j in range(n) if not M.get((i, j), zero).upto(1).close((one if i == j else zero).plus(jac.get((i, j), zero)))]
    ctx.check(not wrong, "linear", label, where, "to first order the coupling (to, from) %s is not the identity plus the derivative of the rates" % wrong[:2])
    return out, rate, v


def w_elems(flow):
    t = flow.w.attr(flow.obj, "floating_req_set")
    return list(t[1]) if t[0] == "frozen" else flow.w.elems(t)


def full_rate(terms, xs):
    rate = [Poly({}) for _ in xs]
    for to, g, src in terms:
        t = g[1]
        for k in src:
            t = t.times(xs[k][1])
        rate[to] = rate[to].plus(t)
    return rate


def at_dark(p, x, names):
    """the polynomial with absent fields set to zero"""
    dark = [nm for nm, t in zip(names, x) if t is None or not (isinstance(t[1], Poly) and t[1].d)]
    return Poly({m: c for m, c in p.d.items() if not any(k in dark for k, n in m)})


def elements(prog):
    """elements whose coupling is integrated along their length"""
    for ci in prog.all_classes():
        f = ci.members.get("system_setup_coupling")
        if f is None or not any(isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, "id", None) or getattr(n, "attr", None)) == "ExpMatCoupling" for m in ci.members.values() if isinstance(m, ast.FunctionDef) for n in ast.walk(m)):
            continue
        yield ci


def run(ctx):
    prog = ctx.prog
    n = 0
    for ci in elements(prog):
        where = "%s:%d" % (ci.module.path, ci.node.lineno)
        if prog.lookup(ci, "po_FrA"):
            el, spec = Element(ci, "deflector", sorted(DEFLECT["through"]), "Drv"), DEFLECT
            scenarios = deflect_scenarios("Drv")
        else:
            el, spec = Element(ci, "crystal", ["po_Fr", "po_Bk"], None), CRYSTAL
            scenarios = crystal_scenarios()
        for name, orders, optical, seeds in scenarios:
            try:
                n += case_rules(ctx, prog, el, spec, where, name, orders, optical, seeds) > 0
            except Failed as e:
                ctx.fail("builds", "%s: %s" % (ci.name, name), where, str(e))
            except BAD as e:
                if os.environ.get("VERIF_TRACE"):
                    traceback.print_exc()
                ctx.undecided("%s: %s: %s %s" % (ci.name, name, type(e).__name__, str(e)[:160]))
    ctx.floor("energy", 15)
    integrator_rules(ctx, prog)
    ctx.floor("derivative", 60)
