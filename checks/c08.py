"""C08: readouts and noise spectra."""
import itertools

from sa.algebra import NotAlgebraic
from sa.evalterm import Point
from sa.interp import C, NONE, FALSE, TRUE, SurelyFails, Value, show, subst, walk
from sa.keyvals import Freq, Key, new_key
from sa.loader import AnalysisBroken
from sa.ndvals import Arr, numpy_call
from sa.objects import World, Unreadable

BAD = (NotAlgebraic, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, Unreadable, ArithmeticError)

EXPLANATION = (
    "Each readout class is analysed as a whole: what it requests from the port engine, and the value of every result it publishes, as a "
    "closed form over abstract transfers of the solved system (only requested transfers exist), compared with the defining formula. The "
    "spectrum assembly is analysed on abstract transfers and a noise map with several sources per pair. Each noise source is analysed for "
    "the covariance of the waves it injects, over ports with several frequencies, and for its spectral density under every declared "
    "normalisation; each dissipative element for the sources it declares.")
ASSUMPTIONS = ["the solved system's transfers are indexed by (driven component, read component); their values are C10's matter",
               "numpy functions have their documented meaning"]


class Port(Value):
    def __init__(self, name, side=None):
        self.name, self.side = name, side

    def ident(self):
        return (self.name, self.side)

    def __eq__(self, o):
        return isinstance(o, Port) and self.ident() == o.ident()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.ident())

    def __repr__(self):
        return "Port(%s%s)" % (self.name, "." + self.side if self.side else "")

    def attr(self, it, name):
        if name in ("i", "o") and self.side is None:
            return C(Port(self.name, name))
        return None

    def method(self, it, name, args, kw):
        if name in ("purge_keys",):
            return C(self)
        return None


class Bunch(Value):
    def __init__(self, d):
        self.d = d

    def attr(self, it, name):
        return self.d.get(name)

    def item(self, it, key):
        return self.d.get(key[1]) if key[0] == "const" else None


class Source(Value):
    """an abstract noise source"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Source(%s)" % self.name

    def __eq__(self, o):
        return isinstance(o, Source) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def method(self, it, name, args, kw):
        if name == "noise_2pt_expectation" and all(a[0] == "const" for a in args):
            return ("sym", "density %r %s" % (self, tuple(a[1] for a in args)))
        return None


F_AC, F_2 = C("F_AC"), C("F_2")
CLS = "\U0001d4d5"


def key(*fs, **more):
    d = {CLS: C(Freq([(F_AC if i == 0 else F_2, n) for i, n in enumerate(fs)]))}
    d.update(more)
    return Key(d)


P, N, DC = key(1), key(-1), key()
BASES = ("SystemElementBase", "OOA_ASSIGN", "SignalElementBase", "NoiseBase")


def decide(it, c):
    if c[0] == "not":
        v = decide(it, c[1])
        return None if v is None else not v
    if c[0] == "call":
        name = c[1][1].split(".")[-1] if c[1][0] == "global" else c[1][2] if c[1][0] == "attr" else None
        if name in ("all", "any") and c[2]:
            return decide(it, c[2][0])
        if name == "isfinite":
            return True
    if c[0] == "cmp" and c[1] == "==" and {c[2][0], c[3][0]} == {"const", "sym"}:
        return False
    return None


def world(prog, extra=None, fns=None, objects=()):
    def calls(w, func, args, kw):
        name = func[2] if func[0] == "attr" else func[1].split(".")[-1] if func[0] == "global" else None
        if name == "setdefault" and func[0] == "attr" and func[1] == CTREE and len(args) == 2:
            return args[1]
        if name in ("PTREE_ASSIGN", "OOA_ASSIGN") and len(args) == 1:
            return args[0]
        if name in ("Bunch", "DeepBunch", "FrozenBunch") and not args:
            return C(Bunch(dict(kw)))
        if func[0] == "global" and func[1].startswith("numpy."):
            r = numpy_call(w.it, name, args, kw)
            if r is not None:
                return r
        if extra is not None:
            r = extra(w, name, func, args, kw)
            if r is not None:
                return r
        if name in ("asarray", "array", "copy", "asanyarray") and len(args) == 1 and args[0][0] in ("sym", "bin", "call"):
            return args[0]
        return None

    w = World(prog, exact=True, objects=objects, fns=dict(fns or {}), calls=calls, decide=decide, new_hook=new_key, values=("DictKey", "FrequencyKey"))
    plain = w.it.opts["fn_hook"]

    def functions(it, fv, args, kw, node):
        # constructors of the framework's base classes: configuration is given directly
        if getattr(fv.node, "name", "") in ("__init__", "__build__") and fv.defclass is not None and fv.defclass.module.name.startswith("phasor.base"):
            return NONE
        return plain(it, fv, args, kw, node)
    w.it.opts["fn_hook"] = functions
    return w


def instance(w, ci, **attrs):
    """an instance with its configuration given; its own __init__ analysed when it has one, base constructors not"""
    obj = w.it.fresh(ci)
    w.it.store[(obj, "system")] = SYSTEM
    for k, v in attrs.items():
        w.it.store[(obj, k)] = v
    return obj


SYSTEM = C(Source("system"))
CTREE = ("sym", "ctree")


# ------------------------------------------------------------------ noise sources
def source_classes(prog):
    out = []
    for ci in prog.all_classes():
        if ci.module.name.startswith("phasor.matrix.old"):
            continue
        if prog.lookup(ci, "noise_2pt_expectation") and prog.lookup(ci, "system_setup_noise"):
            out.append(ci)
    return out


OPT, QUANT, POL = "F⇝", "Ψ", "⤱"
RAISE, LOWER = "↑", "↓"
SIDED = {"one-sided": 2, "one sided": 2, "one": 2, "single-sided": 2, "single sided": 2, "single": 2,
         "two-sided": 1, "two sided": 1, "two": 1, "double-sided": 1, "double sided": 1, "double": 1}
SPECS = ("Vsq_Hz_by_freq", "Isq_Hz_by_freq", "dsq_Hz_by_freq", "Fsq_Hz_by_freq", "PSD_function")


class Recorder(Value):
    """the matrix builder as seen by a noise source"""

    def __init__(self, keys):
        self.keys, self.pairs, self.cplgs = keys, [], []

    def method(self, it, name, args, kw):
        if name == "port_set_get":
            h = it.new_heap("set")
            it.heap[h[1]].items = [(C(k), (), ()) for k in self.keys]
            return h
        if name in ("noise_pair_insert", "port_coupling_insert"):
            if it.guards or it.loops or kw or any(a[0] != "const" for a in args[:4]):
                raise Unreadable("conditional %s" % name)
            (self.pairs if name == "noise_pair_insert" else self.cplgs).append(tuple(args))
            return NONE
        return None


def make_system(w, **attrs):
    s = w.it.fresh(w.cls("phasor.system.system", "BGSystem"))
    for k, v in dict(attrs, F_AC=F_AC).items():
        w.it.store[(s, k)] = v
    return s


def spec_sym(w, it, args):
    f = Point(5)
    f.atoms[("attr", ("attr", F_AC, "F_Hz"), "val")] = (complex(3.7),) * f.width
    f.atoms[("attr", ("attr", F_2, "F_Hz"), "val")] = (complex(1.3),) * f.width
    v = f.vec(f(args[0]))[0]
    if abs(v.imag) > 1e-9:
        raise Unreadable("complex frequency")
    return ("sym", "spectrum(%.6f)" % abs(v.real))


def source_calls(w, name, func, args, kw):
    if func == ("sym", "spectrum") and len(args) == 1 and not kw:
        return spec_sym(w, w.it, args)
    return None


CLASSICAL = [P, N, DC, key(1, 1), key(-1, -1), key(2, -1), key(-2, 1)]
FNS = {"PTREE_ASSIGN": lambda w, a, k: a[0], "OOA_ASSIGN": lambda w, a, k: a[0],
       "own_port_virtual": lambda w, a, k: NONE, "ports_post_get": lambda w, a, k: a[-1], "ports_pre_get": lambda w, a, k: a[-1],
       "port_update_get": lambda w, a, k: w.it.new_heap("set")}


def optical_keys():
    c = C(Freq([(C("F_opt"), 1)]))
    for k in CLASSICAL[:5]:
        for pol in ("S", "P"):
            for q in (RAISE, LOWER):
                yield Key(list(k.d) + [(OPT, c), (POL, C(pol)), (QUANT, C(q))])


def conj(k):
    """the component correlated with k"""
    d = dict(k.d)
    if QUANT in d:
        d[QUANT] = C(LOWER if d[QUANT] == C(RAISE) else RAISE)
    else:
        d[CLS] = C(d[CLS][1].scaled(-1))
    return Key(d)


def freq_of(k):
    return k.get(CLS)[1]


def attr(base, *names):
    for n in names:
        base = ("attr", base, n)
    return base


def mul(*xs):
    t = xs[0]
    for x in xs[1:]:
        t = ("bin", "*", t, x)
    return t


def div(a, b):
    return ("bin", "/", a, b)


SYM = ("sym", "symbols")


def covariance(rec, density, point):
    """((port, key), (port, key)) -> total covariance of the waves, per point entry"""
    into = {}
    for a in rec.cplgs:
        if len(a) != 5:
            raise Unreadable("coupling with field dependence")
        (pf, kf, pt, kt, c) = a
        into.setdefault((pf[1], kf[1]), []).append(((pt[1], kt[1]), point.vec(point(c))))
    virt = set(x for x in into)
    out = {}
    for p1, k1, p2, k2, obj in rec.pairs:
        d = point.vec(point(density(p1, k1, p2, k2)))
        a, b = (p1[1], k1[1]), (p2[1], k2[1])
        ones = (1 + 0j,) * point.width
        for x, c in into.get(a, [(a, ones)]):
            for y, e in into.get(b, [(b, ones)]):
                v = tuple(p * q * r for p, q, r in zip(c, e, d))
                o = out.get((x, y), (0j,) * point.width)
                out[x, y] = tuple(p + q for p, q in zip(o, v))
    return out


def same(a, b):
    return all(abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)) for x, y in zip(a, b))


def source_rule(ctx, prog, ci, label, attrs, keys, amplitude, sided, density):
    """amplitude: {Port: term}; density(key, conversion) -> term of the two-sided density"""
    where = "%s:%d" % (ci.module.path, ci.node.lineno)
    for s, conv in (SIDED.items() if sided else [(None, 1)]):
        w = world(prog, source_calls, FNS)
        sysm = make_system(w)
        obj = instance(w, ci, **attrs)
        w.it.store[(obj, "system")] = sysm
        w.it.store[(obj, "symbols")] = SYM
        for n in SPECS:
            w.it.store.setdefault((obj, n), ("sym", "spectrum"))
        if s:
            w.it.store[(obj, "sided")] = C(s)
        rec = Recorder(list(keys))
        if prog.lookup(ci, "system_setup_coupling"):
            w.call(obj, "system_setup_coupling", C(rec))
        w.call(obj, "system_setup_noise", C(rec))
        got_pairs = [(p1[1], k1[1], p2[1], k2[1]) for p1, k1, p2, k2, o in rec.pairs]
        name = "%s%s" % (label, " (%s)" % s if s else "")
        bad = [k1 for p1, k1, p2, k2 in got_pairs if k2 != conj(k1)]
        ctx.check(not bad, "pairing", name, where, "%s is declared correlated with something else than %s" % (bad[:1], [conj(k) for k in bad[:1]]))
        ctx.check(all(o == obj for *_, o in rec.pairs), "own-source", name, where, "pair attributed to another source")
        if bad:
            continue
        dens = lambda p1, k1, p2, k2: w.it.reify(w.call(obj, "noise_2pt_expectation", p1, k1, p2, k2))
        wrong = []
        for seed in (1, 2):
            pt = Point(seed)
            cov = covariance(rec, dens, pt)
            want = {}
            for k in keys:
                d = pt.vec(pt(density(w, obj, k, conv)))
                for x, cx in amplitude.items():
                    for y, cy in amplitude.items():
                        a, b = pt.vec(pt(cx)), pt.vec(pt(cy))
                        want[(x, k), (y, conj(k))] = tuple(p * q * r for p, q, r in zip(a, b, d))
            for e in set(cov) | set(want):
                z = (0j,) * pt.width
                if not same(cov.get(e, z), want.get(e, z)) and e not in wrong:
                    wrong.append(e)
        ctx.check(not wrong, "density", name, where, "covariance of %s and %s is not the declared spectral density with its amplitudes" %
                  (wrong[0] if wrong else ("", "")))


def sources(ctx, prog):
    p, v = Port("p"), Port("virtual")
    i, o = Port("p", "i"), Port("p", "o")
    half, mhalf, one = C(.5), C(-.5), C(1)
    spectrum = lambda w, obj, k, conv: div(spec_sym(w, w.it, [freq_of(k).value(w.it)]), C(conv))
    z = lambda ci: ("sym", "Z termination")
    table = {
        "VoltageFluctuation": (dict(port=C(p), p_virt=C(v)), CLASSICAL, {i: half, o: mhalf}, True, spectrum),
        "VoltageFluctuation2": (dict(port=C(p)), CLASSICAL, {i: half, o: mhalf}, True, spectrum),
        "CurrentFluctuation": (dict(port=C(p), p_virt=C(v), Ze_termination=z(0)), CLASSICAL, {i: mul(half, z(0)), o: mul(half, z(0))}, True, spectrum),
        "CurrentFluctuation2": (dict(port=C(p), Ze_termination=z(0)), CLASSICAL, {i: mul(half, z(0)), o: mul(half, z(0))}, True, spectrum),
        "DisplacementFluctuation": (dict(port=C(p), p_virt=C(v)), CLASSICAL, {i: half, o: mhalf}, True, spectrum),
        "ForceFluctuation": (dict(portA=C(Port("A")), portB=C(Port("B")), p_virt=C(v), Zm_termination=z(0)), CLASSICAL,
                             {Port("A", "o"): mul(half, z(0)), Port("B", "o"): mul(half, z(0))}, True, spectrum),
        "WhiteNoise": (dict(port=C(p), magnitude_ASD=("sym", "ASD")), CLASSICAL, {i: one}, True,
                       lambda w, obj, k, conv: div(mul(("sym", "ASD"), ("sym", "ASD")), C(conv))),
        "PSDFunctionNoise": (dict(port=C(p)), CLASSICAL, {i: one}, True, spectrum),
        "OpticalVacuumFluctuation": (dict(port=C(p)), list(optical_keys()), {o: one}, False,
                                     lambda w, obj, k, conv: div(mul(attr(SYM, "h_Js"), attr(SYM, "c_m_s"), attr(C("F_opt"), "iwavelen_m")), C(2))),
    }
    for ci in source_classes(prog):
        t = table.get(ci.name)
        if t is None:
            if ci.name not in ("SimpleNoiseBase", "NoiseBase"):
                ctx.undecided("%s: noise source without a rule" % ci.qual)
            continue
        attempt(ctx, ci.name, source_rule, ctx, prog, ci, ci.name, *t)
        if ci.name == "CurrentFluctuation":
            a, b = Port("A", "i"), Port("B", "o")
            attempt(ctx, ci.name, source_rule, ctx, prog, ci, ci.name + " between two ports", dict(portA=C(a), portB=C(b), port=NONE, p_virt=C(v), Ze_termination=z(0)),
                    CLASSICAL, {a: mul(half, z(0)), b: mul(half, z(0))}, True, spectrum)


# ------------------------------------------------------------------ sources declared by elements
class Declared(Value):
    def __init__(self, ci, kw):
        self.ci, self.kw = ci, kw


KT = mul(attr(SYM, "kB_J_K"), attr(SYM, "temp_K"))
FREQ = ("sym", "F")
OMEGA = mul(C(2), attr(SYM, "pi"), FREQ)


def kind_of(prog, ci):
    for c in prog.mro(ci):
        for k, names in (("V", ("VoltageFluctuation", "VoltageFluctuation2")), ("I", ("CurrentFluctuation", "CurrentFluctuation2")), ("x", ("DisplacementFluctuation",)),
                         ("F", ("ForceFluctuation",)), ("vac", ("OpticalVacuumFluctuation",)), ("signal", ("WhiteNoise", "PSDFunctionNoise"))):
            if c.name in names:
                return k
    return None


def declared(w, prog, obj, member):
    """-> [(kind, port, two-sided density at FREQ)]"""
    v = w.attr(obj, member)
    if v == NONE:
        return []
    if v[0] != "const" or not isinstance(v[1], Declared):
        raise Unreadable("source of %s: %s" % (member, show(v)[:80]))
    d = v[1]
    kw = dict(d.kw)
    port = kw.get("port")
    kind = kind_of(prog, d.ci)
    spec = [kw[n] for n in SPECS if n in kw]
    if kind == "vac":
        return [(kind, port, None)]
    if len(spec) != 1 or kw.get("sided", NONE)[0] != "const":
        raise Unreadable("density of %s" % member)
    t = w.it.reify(w.apply(spec[0], FREQ))
    return [(kind, port, div(t, C(SIDED[kw["sided"][1]])))]


def noise_world(prog):
    def hook(it, qual, args, kw, node):
        r = new_key(it, qual, args, kw, node)
        if r is not None:
            return r
        m, n = qual.split(":")
        ci = prog.modules[m].classes.get(n) if m in prog.modules else None
        if ci is not None and not args and prog.lookup(ci, "noise_2pt_expectation"):
            return C(Declared(ci, kw))
        return None
    w = world(prog, noise_calls)
    w.it.opts["new_hook"] = hook
    return w


def noise_calls(w, name, func, args, kw):
    if func[0] == "sym" and len(args) == 1 and not kw:
        return ("sym", "%s(%r)" % (func[1], w.it.reify(args[0])))
    if name == "callable" and len(args) == 1:
        return TRUE if args[0][0] in ("func",) or args[0][0] == "sym" and "func" in args[0][1] else None
    return None


def johnson(R):
    return mul(C(2), KT, R)      # two-sided: 4 k T R / 2


def elements(ctx, prog):
    A, Cp = C(Port("A")), C(Port("C"))
    S = lambda n: ("sym", n)
    R, L1, L2, k, phi = S("R"), S("L1"), S("L2"), S("k"), S("func loss")
    lossF = ("sym", "func loss(%r)" % (FREQ,))
    cases = []

    def case(cls, members, attrs, want, what="", **opts):
        cases.append((cls, members, attrs, want, what, opts))
    el, me, op = "phasor.electronics", "phasor.mechanical", "phasor.optics"
    ports = dict(pe_A=A, pe_C=Cp, pm_A=A, pe_B=C(Port("B")), pm_B=C(Port("B")))
    for c in ("passive:ResistorBase", "passive:TerminatorResistor", "passive:SeriesResistor", "passive:InductorBase", "passive:TerminatorInductor", "passive:SeriesInductor"):
        case(el + "." + c, ["johnson_noise"], dict(ports, resistance_Ohms=R), [("V", A, johnson(R))])
    for c in ("passive:InductorBase", "passive:TerminatorInductor", "passive:SeriesInductor"):
        case(el + "." + c, ["johnson_noise"], dict(ports, resistance_Ohms=C(0)), [], " without resistance")
    case(el + ".passive:Transformer", ["L1_johnson_noise", "L2_johnson_noise"], dict(ports, L1_resistance_Ohms=L1, L2_resistance_Ohms=L2),
         [("V", A, johnson(L1)), ("V", Cp, johnson(L2))])
    case(el + ".passive:Transformer", ["L1_johnson_noise", "L2_johnson_noise"], dict(ports, L1_resistance_Ohms=C(0), L2_resistance_Ohms=C(0)), [], " without resistance")
    case(el + ".passive:TransformerSeries", ["L1_johnson_noise"], dict(ports, L1_resistance_Ohms=L1), [("V", A, johnson(L1))])
    case(el + ".smatrix:TerminatorMatched", ["johnson_noise"], dict(ports, Ze_termination=S("Ze")), [("V", A, johnson(("attr", S("Ze"), "real")))])
    for c in ("DamperBase", "TerminatorDamper", "SeriesDamper"):
        case(me + ".passive:" + c, ["johnson_noise"], dict(ports, resistance_Ns_m=R), [("x", A, div(mul(C(2), KT), mul(R, OMEGA, OMEGA)))])
    for c in ("SpringBase", "TerminatorSpring", "SeriesSpring"):
        case(me + ".passive:" + c, ["johnson_noise"], dict(ports, elasticity_N_m=k, loss_angle_by_freq=phi),
             [("x", A, div(mul(C(2), KT, lossF), mul(OMEGA, k)))])
        case(me + ".passive:" + c, ["johnson_noise"], dict(ports, elasticity_N_m=k, loss_angle_by_freq=NONE), [], " without loss")
    SV, SI, SO = S("func V"), S("func I"), S("func O")
    at = lambda n: ("sym", "%s(%r)" % (n, FREQ))
    n_, p_, o_ = C(Port("in_n")), C(Port("in_p")), C(Port("out"))
    amp = dict(in_n=n_, in_p=p_, out=o_, V_spectrum_one_sided=SV, I_spectrum_one_sided=SI, Vout_spectrum_one_sided=SO)
    half = lambda t: div(t, C(2))
    opamp = [("V", n_, half(at("func V"))), ("I", n_, half(at("func I"))), ("I", p_, half(at("func I")))]
    case(el + ".opamps:ImperfectOpAmp", ["V_noise", "I_noise_n", "I_noise_p"], amp, opamp)
    case(el + ".opamps:ImperfectInAmp", ["V_noise", "I_noise_n", "I_noise_p", "Vout_noise"], amp, opamp + [("V", o_, half(at("func O")))])
    fr = C(Port("Fr"))
    for c in ("laser:Laser", "photodiode:PD", "vacuum:VacuumTerminator"):
        case(op + "." + c, ["_fluct"], dict(po_Fr=fr), [("vac", fr, None)])
    for cls, members, attrs, want, what, opts in cases:
        m, n = cls.split(":")
        ci = prog.modules[m].classes.get(n) if m in prog.modules else None
        if ci is None:
            continue
        for on in (True, False):
            if not on and not any("johnson" in x for x in members):
                continue
            attempt(ctx, n, element_rule, ctx, prog, ci, members, attrs, want if on else [], what + ("" if on else " with thermal noise off"), on)


def element_rule(ctx, prog, ci, members, attrs, want, what, on):
    members = [m for m in members if prog.lookup(ci, m)]
    if not members:
        raise Unreadable("no source member")
    w = noise_world(prog)
    obj = instance(w, ci, **attrs)
    w.it.store[(obj, "system")] = make_system(w, include_johnson_noise=C(on))
    w.it.store[(obj, "symbols")] = SYM
    got = [x for m in members for x in declared(w, prog, obj, m)]
    where = "%s:%d" % (ci.module.path, ci.node.lineno)
    fmt = lambda l: sorted("%s at %r" % (k, p[1] if p and p[0] == "const" else p) for k, p, d in l)
    con = ci.name + what
    if not ctx.check(fmt(got) == fmt(want), "declares", con, where, "declares the sources %s, not %s" % (fmt(got), fmt(want))):
        return
    for k, p, d in want:
        if d is None:
            continue
        ok = True
        for seed in (1, 2):
            pt = Point(seed)
            g = [pt.vec(pt(e)) for kk, pp, e in got if (kk, pp) == (k, p)]
            x = [pt.vec(pt(e)) for kk, pp, e in want if (kk, pp) == (k, p)]
            ok = ok and same([sum(v) for v in zip(*g)], [sum(v) for v in zip(*x)])
        ctx.check(ok, "dissipation", "%s %s at %r" % (con, k, p[1]), where, "spectral density of the declared source differs")


# ------------------------------------------------------------------ readouts
class Ports(Value):
    """the port engine as seen by a readout"""

    def __init__(self):
        self.read, self.drive = {}, {}

    def method(self, it, name, args, kw):
        into = {"readout_port_needed": self.read, "drive_port_needed": self.drive}.get(name)
        if into is None:
            return None
        kw = dict(kw)
        a = list(args) + [kw[n] for n in ("pto", "kto", "portsets")[len(args):] if n in kw]
        if it.guards or it.loops or any(x[0] != "const" for x in a[:2]):
            raise Unreadable("conditional request")
        sets = it.iter_concrete(a[2]) if len(a) > 2 else []
        if sets is None or any(x[0] != "const" for x, _, _ in sets):
            raise Unreadable("port sets")
        for x, _, _ in sets:
            into.setdefault(x[1], []).append((a[0][1], a[1][1]))
        return NONE


def pk(p, k):
    return ("tuple", (C(p), C(k)))


TRANSFERS = {}


def transfer(d, r):
    t = ("sym", "T[%r %r -> %r %r]" % (d + r))
    TRANSFERS[t] = (d, r)
    return t


def level(r):
    return ("sym", "X[%r %r]" % r)


class Solution(Value):
    """the solved system: only what was requested can be looked up"""

    def __init__(self, ports, noise=None):
        self.ports, self.noise, self.missing = ports, noise, set()

    def method(self, it, name, args, kw):
        kw = dict(kw)

        def name_of(n, i):
            t = kw.get(n, args[i] if i < len(args) else None)
            if t is not None and t[0] == "attr" and t[1][0] == "inst":
                raise SurelyFails("no attribute %s" % t[2])
            if t is None or t[0] != "const" or not isinstance(t[1], str):
                raise Unreadable("%s of a solution" % n)
            return t[1]
        if name == "coupling_solution_get":
            d, r = name_of("drive_set", 0), name_of("readout_set", 1)
            drives = self.noise[0] if self.noise and d == "noise" else self.ports.drive.get(d, [])
            h = it.new_heap("dict")
            it.heap[h[1]].items = [(("tuple", (pk(*x), pk(*y))), transfer(x, y), (), ()) for x in dict.fromkeys(drives) for y in dict.fromkeys(self.ports.read.get(r, []))
                                   if (x, y) not in self.missing]
            return C(Bunch(dict(coupling_matrix_inv=h)))
        if name == "driven_solution_get":
            h = it.new_heap("dict")
            it.heap[h[1]].items = [(pk(*y), level(y), (), ()) for y in dict.fromkeys(self.ports.read.get(name_of("readout_set", 0), []))]
            return C(Bunch(dict(solution=h)))
        if name == "noise_map" and self.noise:
            m = it.new_heap("dict")
            for a, inner in self.noise[1].items():
                d = it.new_heap("dict")
                for b, objs in inner.items():
                    l = it.new_heap("list")
                    it.heap[l[1]].items = [(("tuple", (C(a[0]), C(a[1]), C(b[0]), C(b[1]), C(o))), (), ()) for o in objs]
                    it.heap[d[1]].items.append((pk(*b), l, (), ()))
                it.heap[m[1]].items.append((pk(*a), d, (), ()))
            return m
        return None


def add(*ts):
    t = ts[0]
    for x in ts[1:]:
        t = ("bin", "+", t, x)
    return t


def through(d, n, dks=(P, N), nk=P):
    """response of port n at +F to a real modulation of port d"""
    return add(*[transfer((d, k), (n, nk)) for k in dks])


def readout_world(prog):
    w = world(prog, None, FNS)
    ports = Ports()
    sol = Solution(ports)
    sysm = make_system(w, solution=C(sol))
    w.it.opts["ambient"] = dict(system=sysm, symbols=SYM, ctree=CTREE)

    def hook(it, qual, args, kw, node):
        r = new_key(it, qual, args, kw, node)
        if r is not None:
            return r
        m, n = qual.split(":")
        if n in ("PTREE_ASSIGN", "OOA_ASSIGN") and len(args) == 1:
            return args[0]
        ci = prog.modules[m].classes.get(n) if m in prog.modules else None
        if ci is not None and m.startswith("phasor.readouts") and not args and all(k for k, v in kw):
            return construct(w, ci, **dict(kw))
        return None
    w.it.opts["new_hook"] = hook
    return w, ports, sol, sysm


def construct(w, ci, **kw):
    obj = w.it.fresh(ci)
    r = w.prog.lookup(ci, "__init__")
    if r is not None and not r[0].module.name.startswith("phasor.base"):
        w.it.call_func(w.it.method("__init__", obj, ci), [], list(kw.items()), None)
    for k, v in kw.items():
        w.it.store.setdefault((obj, k), v)
    r = w.prog.lookup(ci, "__build__")
    if r is not None and not r[0].module.name.startswith("phasor.base"):
        w.it.call_func(w.it.method("__build__", obj, ci), [], [], None)
    return obj


def results(ctx, prog, ci, what, config, wants):
    """wants: {attribute: term}; transfers the solver leaves out are zero"""
    results_with(ctx, prog, ci, what, config, wants, set())
    drops = set()
    for t in wants.values():
        for q in walk(t):
            if q[0] == "sym" and q in TRANSFERS and TRANSFERS[q][0][1] == N:
                drops.add(TRANSFERS[q])
    if drops:
        zero = {transfer(*d): C(0) for d in drops}
        results_with(ctx, prog, ci, what + " without negative frequency transfer", config, {n: subst(t, zero) for n, t in wants.items()}, drops)


def results_with(ctx, prog, ci, what, config, wants, missing):
    where = "%s:%d" % (ci.module.path, ci.node.lineno)
    w, ports, sol, sysm = readout_world(prog)
    sol.missing = missing
    obj = construct(w, ci, **config)
    w.call(obj, "system_setup_ports_initial", C(ports))
    for name, want in wants.items():
        con = "%s.%s%s" % (ci.name, name, what)
        try:
            got = w.it.reify(w.attr(obj, name))
        except SurelyFails as ex:
            ctx.fail("readout", con, where, "looks up what was not requested: %s" % ex)
            continue
        ctx.check(agree(got, want), "readout", con, where, "publishes %s" % show(got)[:300])


def readouts(ctx, prog):
    n, d, v = Port("n", "o"), Port("d", "o"), Port("v", "i")
    cls = lambda m, c: prog.modules[m].classes[c]
    AC, DCm = "phasor.readouts.AC", "phasor.readouts.DC"
    off = dict(include_noise=FALSE)
    X = attempt
    X(ctx, "ACReadout", results, ctx, prog, cls(AC, "ACReadout"), "", dict(off, portN=C(n), portD=C(d)),
      dict(AC_sensitivity=through(d, n), AC_sensitivityOL=div(through(d, n), through(d, d)), F_Hz=attr(F_AC, "F_Hz")))
    X(ctx, "ACReadout", results, ctx, prog, cls(AC, "ACReadout"), " with a separate drive", dict(off, portN=C(n), portD=C(d), portDrv=C(v)),
      dict(AC_sensitivity=through(v, n), AC_sensitivityOL=div(through(v, n), through(v, d))))
    X(ctx, "ACReadoutCLG", results, ctx, prog, cls(AC, "ACReadoutCLG"), "", dict(off, portN=C(n), portD=C(d)), dict(AC_sensitivity=through(d, n)))
    clg = lambda p: through(p, p)
    olg = lambda p: div(("bin", "-", C(1), clg(p)), clg(p))
    one = lambda a, b: transfer((a, P), (b, P))
    LG = cls(AC, "ACReadoutLG")
    X(ctx, "ACReadoutLG", results, ctx, prog, LG, " of an actuator", dict(off, portAct=C(d)), dict(CLG=clg(d), OLG=olg(d)))
    X(ctx, "ACReadoutLG", results, ctx, prog, LG, " of a sensor", dict(off, portSense=C(n)), dict(CLG=clg(n), OLG=olg(n)))
    X(ctx, "ACReadoutLG", results, ctx, prog, LG, " of a plant", dict(off, portSense=C(n), portAct=C(d)), dict(CLG=clg(n), OLG=olg(n), GPlant=div(one(d, n), one(d, d))))
    X(ctx, "ACReadoutLG", results, ctx, prog, LG, " of a driven plant", dict(off, portSense=C(n), portAct=C(d), portDrv=C(v)),
      dict(CLG=clg(n), GPlant=div(one(v, n), one(v, d))))
    X(ctx, "DCReadout", results, ctx, prog, cls(DCm, "DCReadout"), "", dict(port=C(n)), dict(DC_readout=("attr", level((n, DC)), "real")))
    X(ctx, "Testpoint", results, ctx, prog, cls("phasor.readouts.testpoint", "Testpoint"), "", dict(port=C(n)), dict(DC=("attr", level((n, DC)), "real")))


# ------------------------------------------------------------------ noise spectra
def noise_case():
    v1, v2, v3 = Port("virt1", "o"), Port("virt2", "o"), Port("virt3", "i")
    up, dn = Key([(CLS, C(Freq([(F_AC, 1)]))), (QUANT, C(RAISE))]), Key([(CLS, C(Freq([(F_AC, -1)]))), (QUANT, C(LOWER))])
    S = [Source("s%d" % i) for i in range(5)]
    a, b, c, d, e, f, g = (v1, P), (v1, N), (v2, up), (v2, dn), (v3, P), (v3, N), (v3, DC)
    nmap = {a: {b: [S[0], S[1]], f: [S[2]]}, b: {a: [S[0], S[1]]}, c: {d: [S[3]]}, d: {c: [S[3]]}, e: {f: [S[4]], b: [S[2]]}, f: {e: [S[4]]}, g: {g: [S[4]]}}
    drives = [a, b, c, d, e, f, g, (v2, P)]
    return drives, nmap


def spectrum_terms(drives, nmap, missing, fn, fm, adjust, real):
    """total and by source: sum over correlated pairs of adjust * density * transfer * transfer"""
    by = {}
    for x, inner in nmap.items():
        for y, objs in inner.items():
            if (x, fn) in missing or (y, fm) in missing:
                continue
            for o in objs:
                t = mul(C(adjust), ("sym", "density %r %s" % (o, (x[0], x[1], y[0], y[1]))), transfer(x, fn), transfer(y, fm))
                by.setdefault(o, []).append(("attr", t, "real") if real else t)
    return add(C(0), *[t for ts in by.values() for t in ts]), {o: add(*ts) for o, ts in by.items()}


def agree(got, want, seeds=(1, 2, 3)):
    for s in seeds:
        pt = Point(s)
        x = pt.vec(pt(want))
        try:
            if not same(pt.vec(pt(got)), x):
                return False
        except ZeroDivisionError:
            return False
    return True


def table(w, t):
    """{key: value} of a concrete dictionary"""
    return {k: w.it.reify(v) if v[0] != "obj" else v for k, v, g in w.entries(t)}


def spectra(ctx, prog):
    ci = prog.modules["phasor.readouts.noise"].classes["NoiseReadout"]
    n, q = Port("n", "o"), Port("q", "o")
    for what, config, ports in (("", dict(portN=C(n)), {"R": n}), (" of two ports", None, {"I": n, "Q": q}),
                                (" in its own set", dict(portN=C(n), port_set=C("mine")), {"R": n}), (" at DC", dict(portN=C(n), AC_sidebands_use=FALSE), {"R": n})):
        for sided in (1, 2):
            attempt(ctx, "NoiseReadout" + what, spectrum_rule, ctx, prog, ci, what, config, ports, sided)
    attempt(ctx, "noise map", noise_map, ctx, prog)


def noise_setup(w, ports, sol, sysm, sided, missing):
    drives, nmap = noise_case()
    sol.noise, sol.missing = (drives, nmap), missing
    w.it.store[(sysm, "sided_spectra")] = C(sided)


def spectrum_rule(ctx, prog, ci, what, config, ports, sided):
    where = "%s:%d" % (ci.module.path, ci.node.lineno)
    w, pe, sol, sysm = readout_world(prog)
    drives, nmap = noise_case()
    pos, neg_ = (DC, DC) if "DC" in what else (P, N)
    # some transfers vanish and are not in the solution
    missing = {(drives[2], (p, pos)) for p in list(ports.values())[:1]} | {(drives[4], (list(ports.values())[-1], neg_))}
    noise_setup(w, pe, sol, sysm, sided, missing)
    if config is None:
        config = dict(port_map=w.dict([(C(k), C(p)) for k, p in ports.items()]))
    obj = construct(w, ci, **config)
    w.call(obj, "system_setup_ports_initial", C(pe))
    adjust = {1: 2, 2: 1}[sided]
    name = "NoiseReadout%s (%s)" % (what, {1: "one-sided", 2: "two-sided"}[sided])
    try:
        total = table(w, w.attr(obj, "CSD"))
        by = table(w, w.attr(obj, "CSD_by_source"))
    except SurelyFails as ex:
        ctx.fail("spectrum", name, where, "fails: %s" % ex)
        return
    for a, b in itertools.product(ports, ports):
        want, each = spectrum_terms(drives, nmap, missing, (ports[a], pos), (ports[b], neg_), adjust, a == b)
        k = ("tuple", (C(a), C(b)))
        ctx.check(k in total and agree(total[k], want), "spectrum", "%s %s,%s" % (name, a, b), where,
                  "is not the sum over the correlated pairs of density and the two transfers")
        wrong = []
        for o in set(each) | set(x[1] for x in by):
            sub = table(w, by[C(o)]) if C(o) in by else {}
            if not agree(sub.get(k, C(0)), each.get(o, C(0))):
                wrong.append(o)
        ctx.check(not wrong, "by-source", "%s %s,%s" % (name, a, b), where, "contribution of %s differs" % wrong[:2])


def noise_map(ctx, prog):
    """declared pairs all end up in the noise map, and their components among the driven ones"""
    ci = prog.get_class("phasor.system.matrix_algorithm", "MatrixBuildAlgorithm")
    where = "%s:%d" % (ci.module.path, ci.node.lineno)
    w = world(prog)
    obj = instance(w, ci)
    a, b = Port("a", "o"), Port("b", "i")
    for n in ("port_cplgs",):
        w.it.store[(obj, n)] = w.dict([(C(p), w.set([C(P), C(N), C(DC)])) for p in (a, b)])
    w.it.store[(obj, "noise_pk_set")] = w.set([])
    w.it.store[(obj, "_nmap")] = w.dict([])
    S = [C(Source("s%d" % i)) for i in range(3)]
    calls = [(a, P, a, N, S[0]), (a, N, a, P, S[0]), (a, P, a, N, S[1]), (a, P, b, N, S[2]), (b, N, a, P, S[2]), (b, DC, b, DC, S[2]), (a, P, a, N, S[2])]
    for x in calls:
        w.call(obj, "noise_pair_insert", *[C(t) if isinstance(t, Value) else t for t in x])
    got = []
    for k, inner in table(w, w.it.store[(obj, "_nmap")]).items():
        for k2, l in table(w, inner).items():
            for t in w.elems(l):
                got.append((k, k2, t))
    want = [(pk(p1, k1), pk(p2, k2), ("tuple", (C(p1), C(k1), C(p2), C(k2), o))) for p1, k1, p2, k2, o in calls]
    ctx.check(sorted(map(repr, got)) == sorted(map(repr, want)), "noise-map", "noise_pair_insert", where, "declared pairs are lost, duplicated or misfiled")
    comps = set(w.elems(w.it.store[(obj, "noise_pk_set")]))
    ctx.check(comps == set(x for a, b, t in want for x in (a, b)), "noise-map", "driven components", where, "components of declared pairs are not all driven")


# ------------------------------------------------------------------ results built on spectra
def composite(ctx, prog):
    n, d, v, q = Port("n", "o"), Port("d", "o"), Port("v", "i"), Port("q", "o")
    cls = lambda m, c: prog.modules[m].classes[c]
    AC = "phasor.readouts.AC"
    drives, nmap = noise_case()
    psd, by = spectrum_terms(drives, nmap, set(), (n, P), (n, N), 2, True)
    root = lambda t: ("bin", "**", t, C(.5))
    mod = lambda t: ("call", ("global", "numpy.abs"), (t,), ())
    for c, config, sens in ((cls(AC, "ACReadout"), dict(portN=C(n), portD=C(d)), through(d, n)),
                            (cls(AC, "ACReadoutCLG"), dict(portN=C(n), portD=C(d)), through(d, n)),
                            (cls("phasor.readouts.testpoint", "Testpoint"), dict(port=C(n)), None)):
        wants = dict(AC_PSD=psd, AC_ASD=root(psd))
        if sens is not None:
            wants["AC_noise_limited_sensitivity"] = div(root(psd), mod(sens))
        attempt(ctx, c.name, composite_rule, ctx, prog, c, config, wants, by)


def composite_rule(ctx, prog, ci, config, wants, by):
    where = "%s:%d" % (ci.module.path, ci.node.lineno)
    w, pe, sol, sysm = readout_world(prog)
    noise_setup(w, pe, sol, sysm, 1, set())
    obj = construct(w, ci, **config)
    w.call(obj, "system_setup_ports_initial", C(pe))
    w.call(w.attr(obj, "noise"), "system_setup_ports_initial", C(pe))
    for name, want in wants.items():
        con = "%s.%s" % (ci.name, name)
        got = w.it.reify(w.attr(obj, name))
        ctx.check(agree(got, want), "readout", con, where, "publishes %s" % show(got)[:300])
    got = table(w, w.attr(obj, "AC_PSD_by_source"))
    wrong = [o for o in by if C(o) not in got or not agree(got[C(o)], by[o])]
    ctx.check(not wrong and len(got) == len(by), "by-source", ci.name + ".AC_PSD_by_source", where, "contribution of %s differs" % wrong[:2])


# ------------------------------------------------------------------ homodyne
def homodyne(ctx, prog):
    ci = prog.modules["phasor.readouts.homodyne_AC"].classes["HomodyneACReadout"]
    attempt(ctx, ci.name, homodyne_rule, ctx, prog, ci)


def homodyne_rule(ctx, prog, ci):
    where = "%s:%d" % (ci.module.path, ci.node.lineno)
    i, q, d, v = Port("i", "o"), Port("q", "o"), Port("d", "o"), Port("v", "i")
    phase = ("sym", "phase")
    for what, config, drv in (("", {}, d), (" with a separate drive", dict(portDrv=C(v)), v)):
        w, pe, sol, sysm = readout_world(prog)
        noise_setup(w, pe, sol, sysm, 1, set())
        obj = construct(w, ci, portNI=C(i), portNQ=C(q), portD=C(d), phase_deg=phase, **config)
        w.call(obj, "system_setup_ports_initial", C(pe))
        w.call(w.attr(obj, "noise"), "system_setup_ports_initial", C(pe))
        drives, nmap = noise_case()
        R = turned(phase)
        s = [div(through(drv, x), through(drv, d)) for x in (i, q)]
        sens = [add(mul(R[a][0], s[0]), mul(R[a][1], s[1])) for a in (0, 1)]
        csd = [[spectrum_terms(drives, nmap, set(), (x, P), (y, N), 2, x == y) for y in (i, q)] for x in (i, q)]

        def quad(m, a, b):
            return add(*[mul(R[a][x], m(x, y), R[b][y]) for x in (0, 1) for y in (0, 1)])

        def compare(name, got, want):
            ctx.check(agree(got, want), "homodyne", "%s.%s%s" % (ci.name, name, what), where, "publishes %s" % show(got)[:200])
        got = arr(w.attr(obj, "AC_sensitivity_IQ"))
        for a in (0, 1):
            compare("AC_sensitivity_IQ[%d]" % a, w.it.reify(got.at([a])), sens[a])
        compare("AC_sensitivity", w.it.reify(w.attr(obj, "AC_sensitivity")), sens[0])
        m = arr(w.attr(obj, "AC_CSD_IQ"))
        full = [[quad(lambda x, y: csd[x][y][0], a, b) for b in (0, 1)] for a in (0, 1)]
        for a, b in itertools.product((0, 1), (0, 1)):
            compare("AC_CSD_IQ[%d,%d]" % (a, b), w.it.reify(m.at([a, b])), full[a][b])
        compare("AC_PSD", w.it.reify(w.attr(obj, "AC_PSD")), full[0][0])
        root = lambda t: ("bin", "**", t, C(.5))
        compare("AC_noise_limited_sensitivity", w.it.reify(w.attr(obj, "AC_noise_limited_sensitivity")),
                div(root(full[0][0]), ("call", ("global", "numpy.abs"), (sens[0],), ())))
        by = table(w, w.attr(obj, "AC_PSD_by_source"))
        for o in set(x for r in csd for c in r for x in c[1]):
            want = quad(lambda x, y: csd[x][y][1].get(o, C(0)), 0, 0)
            ctx.check(C(o) in by and agree(by[C(o)], want), "homodyne", "%s.AC_PSD_by_source %r%s" % (ci.name, o, what), where, "contribution of the source differs")
        re = [[("attr", full[a][b], "real") for b in (0, 1)] for a in (0, 1)]
        det = ("bin", "-", mul(re[0][0], re[1][1]), mul(re[0][1], re[1][0]))
        inv = [[re[1][1], ("un", "-", re[0][1])], [("un", "-", re[1][0]), re[0][0]]]
        cj = lambda t: ("call", ("global", "numpy.conjugate"), (t,), ())
        form = div(add(*[mul(sens[a], inv[a][b], cj(sens[b])) for a in (0, 1) for b in (0, 1)]), det)
        if not drv == v:
            attempt(ctx, ci.name + ".rotate_deg", turning, ctx, prog, ci, w, obj, where, phase, s, csd)
        compare("AC_noise_limited_sensitivity_optimal", w.it.reify(w.attr(obj, "AC_noise_limited_sensitivity_optimal")), div(C(1), root(form)))


def turned(phase):
    rad = div(mul(phase, ("global", "numpy.pi")), C(180))
    f = lambda n: ("call", ("global", "numpy." + n), (rad,), ())
    return ((f("cos"), f("sin")), (("un", "-", f("sin")), f("cos")))


def turning(ctx, prog, ci, w, obj, where, phase, s, csd):
    """a readout turned by an angle, and once more, reads at the sum of the angles"""
    total = phase
    for n, t in (("turned", ("sym", "turn")), ("turned twice", ("sym", "turn2"))):
        obj = w.call(obj, "rotate_deg", t)
        total = add(total, t)
        R = turned(total)
        got = arr(w.attr(obj, "AC_sensitivity_IQ"))
        for a in (0, 1):
            ctx.check(agree(w.it.reify(got.at([a])), add(mul(R[a][0], s[0]), mul(R[a][1], s[1]))), "homodyne", "%s %s: response %s" % (ci.name, n, "IQ"[a]), where,
                      "publishes %s" % show(w.it.reify(got.at([a])))[:200])
        want = add(*[mul(R[0][x], csd[x][y][0], R[0][y]) for x in (0, 1) for y in (0, 1)])
        got = w.it.reify(w.attr(obj, "AC_PSD"))
        ctx.check(agree(got, want), "homodyne", "%s %s: density" % (ci.name, n), where, "publishes %s" % show(got)[:200])


def arr(t):
    if t[0] != "const" or not isinstance(t[1], Arr):
        raise Unreadable("not a small array: %s" % show(t)[:80])
    return t[1]


def attempt(ctx, name, f, *a):
    try:
        return f(*a)
    except SurelyFails as ex:
        ci = next((x for x in a if hasattr(x, "module")), None)
        ctx.fail("works", name, "%s:%d" % (ci.module.path, ci.node.lineno) if ci else "", "fails for a valid configuration: %s" % ex)
    except AnalysisBroken:
        raise
    except BAD as ex:
        import os, traceback
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
        ctx.undecided("%s: %s %s" % (name, type(ex).__name__, str(ex)[:160]))


def run(ctx):
    prog = ctx.prog
    sources(ctx, prog)
    elements(ctx, prog)
    readouts(ctx, prog)
    spectra(ctx, prog)
    composite(ctx, prog)
    homodyne(ctx, prog)
