"""C03: signal elements combine their inputs as documented."""
from fractions import Fraction

from sa.algebra import num, NotAlgebraic, atom, r_exp, r_conj, IMAG, PI, new_budget, Alg
from sa.coupling import (Undecided, instances, contributions, Item, KAlg, split, norm_fact, real_cond, sign_of, hz, match_effect)
from sa.interp import SELF, NONE, C, show, walk, contains, Interp, neg, SurelyFails, Value
from sa.laws import Net, Case, KEY, DCKEY, FREQ, HZ, KF, I2PIF, self_attr as A, port, method_term, strays
from sa.loader import AnalysisBroken
from sa.portflow import ElementFlow, EMPTY, Keys, unify
from sa.keyvals import new_key, Freq, Key
from sa.objects import Unreadable, World
from checks.c07 import guarded
from checks.c11 import Num, mask
from checks.c08 import Port
from checks.c16 import Builder, ckey, CLS

EXPLANATION = (
    "For every signal element (amplifiers, filters, state space models, mixers, modulators, mean squares, generators) the total coefficient "
    "between each pair of its ports and frequency components is computed from its setup code as an algebraic normal form, split on the open "
    "conditions, and compared with the documented combination; couplings between other ports or frequencies are violations.")
ASSUMPTIONS = ("signals are real: the component at -f is the conjugate of the one at f, a component at f has amplitude a in a cos(2 pi f t), at DC its full value",)

S = "phasor.signals."
FM = ("F", "m")
KM = ((FM, Fraction(1)),)
BAD = (NotAlgebraic, Undecided, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, ZeroDivisionError)


def fkey(a=1, b=0):
    f = tuple((x, Fraction(n)) for x, n in ((("F", "k"), a), (FM, b)) if n)
    return (EMPTY, f, None, None)


class FCase(Case):
    def __init__(self, net, facts, sums):
        self.net, self.facts, self.sums = net, facts, sums

    def __call__(self, tag):
        return self.sums.get(tag, num(0))

    def sign(self, a):
        """-1, 0, 1 of a frequency atom as the facts say, None if open"""
        if ("DC", ((a[1], Fraction(1)),)) in self.facts:
            return 0
        q = ("Q", atom(a).frozen())
        if ("cmp", "==", C(0), q) in self.facts:
            return 0
        if ("cmp", "<", C(0), q) in self.facts:
            return 1
        if ("cmp", "<", q, C(0)) in self.facts or ("not", ("cmp", "<", C(0), q)) in self.facts or ("cmp", "<=", q, C(0)) in self.facts:
            return -1
        return None


def fact(K, f):
    if f[0] == "not":
        return neg(fact(K, f[1]))
    return norm_fact(f if f[0] in ("DC", "maxcut", "reject") else real_cond(K, f))


class FNet:
    """wants: tag -> (method, ((port term, role, key), ..))"""

    def __init__(self, flow, wants, params=None, facts=(), keys=(KF,)):
        self.flow = flow
        self.K = Keys(flow, {})
        items = []
        for tag, (method, target) in wants.items():
            items += contributions(flow, method, [(port(p) if isinstance(p, str) else p, r, k) for p, r, k in target], tag)
        for nme, t in (params or {}).items():
            items.append(Item(self.K, (), t, ("P", nme)))
        st = set([("not", ("reject", ()))])
        for m, target in wants.values():
            for p, r, k in target:
                if k[1]:
                    st.add(norm_fact(("not", ("reject", k[1]))))
        st |= set(fact(self.K, f) for f in facts)
        self.cases = [FCase(self, fs, s) for fs, s in split(items, frozenset(st))]


def rule(ctx, name, where, flow, wants, f, params=None, facts=()):
    new_budget()
    try:
        net = FNet(flow, wants, params, facts)
        for c in net.cases:
            v = f(c)
            if v is None:
                continue
            if not c.zero(v):
                ctx.fail("law", name, where, "residual %s" % repr(v)[:300])
                return
    except AnalysisBroken:
        raise
    except BAD as ex:
        ctx.undecided("%s: %s %s" % (name, type(ex).__name__, str(ex)[:140]))
        return
    if not net.cases:
        ctx.undecided("%s: no case" % name)
        return
    ctx.ok("law", name)


# ------------------------------------------------------------------ elements with any number of ports
def attr_port(t, side):
    """attribute of self named by a loop element: -> the element"""
    if t[0] == "attr" and t[2] == side:
        q = t[1]
        if q[0] == "attr?" and q[1] == SELF:
            return q[2]
    return None


def bunch_port(t, side, name):
    if t[0] == "attr" and t[2] == side and t[1][0] == "item" and t[1][1] == A(name):
        return t[1][2]
    return None


def family(ctx, flow, cname, where, classify, laws, facts=(), out=None):
    """classify(inst) -> (law, expected term or function of the case) or None when no law covers the coupling"""
    seen = set()
    for x in instances(flow):
        if any(m.nf is None for m in x.members):
            raise Undecided("key at %s" % x.e.loc)
        r = classify(x)
        if r is None:
            ctx.fail("structure", "%s: every coupling is documented" % cname, x.e.loc,
                     "couples %s" % " and ".join(show(m.port)[:80] for m in x.members))
            continue
        law, exp = r
        seen.add(law)
        T = [(m.port, m.role, KEY) for m in x.members]
        rule(ctx, "%s: %s" % (cname, law), where, flow, {"S": (x.method, T)}, lambda c, exp=exp: c("S") - (exp(c) if callable(exp) else KAlg(c.net.K)(exp)),
             facts=facts)
    for law in laws:
        ctx.check(law in seen, "structure", "%s: %s (present)" % (cname, law), where, "no such coupling")


def same_key(x):
    return x.method == "port_coupling_insert" and len(x.members) == 2 and x.members[0].nf == x.members[1].nf


def distribution(ctx, flow, where):
    def cl(x):
        if same_key(x) and x.members[0].port == port("ps_In.i"):
            e = attr_port(x.members[1].port, "o")
            if e is not None:
                return "output gains", ("item", A("port_gains"), e)
    family(ctx, flow, "DistributionAmplifier", where, cl, ["output gains"])


def summing(ctx, flow, where):
    def cl(x):
        if same_key(x) and x.members[1].port == port("ps_Out.o"):
            e = attr_port(x.members[0].port, "i")
            if e is not None:
                return "input gains", ("item", A("port_gains"), e)
    family(ctx, flow, "SummingAmplifier", where, cl, ["input gains"])


def matrix(cname, attr, law, value):
    def f(ctx, flow, where):
        def cl(x):
            if not same_key(x):
                return None
            a, b = bunch_port(x.members[0].port, "i", "ps_In"), bunch_port(x.members[1].port, "o", "O")
            if a is None or b is None or a[0] != "item" or b[0] != "item" or a[1] != b[1] or (a[2], b[2]) != (C(0), C(1)):
                return None
            return law, value(("item", A(attr), a[1]))
        facts = [("not", ("maxcut", KF, A("max_freq")))] if attr == "port_pair_xfers" else ()
        family(ctx, flow, cname, where, cl, [law], facts)
    return f


def at_freq(g):
    def f(c):
        return atom(("call", KAlg(c.net.K).opaque(g) if hasattr(KAlg, "opaque") else g, (FREQ,), ()))
    return f


def state_space(ctx, flow, where):
    it = flow.it2
    lists = dict((n, it.reify(it.get_attr(SELF, n))) for n in ("ports_in", "ports_out", "ports_states"))

    def which(p):
        """(list name, index element, side)"""
        if p[0] == "attr" and p[1][0] == "elem" or p[0] != "attr":
            return None
        q = p[1]
        for n, l in lists.items():
            if q[0] == "item" and (q[1] == l or q[1] == A(n)):
                return n, q[2], p[2]
        return None

    def cl(x):
        if not same_key(x):
            return None
        a, b = which(x.members[0].port), which(x.members[1].port)
        if a is None or b is None:
            raise Undecided("port of the state space model: %s" % show(x.members[0].port)[:80])
        M = {("ports_in", "i", "ports_states", "node"): "B", ("ports_in", "i", "ports_out", "o"): "D",
             ("ports_states", "node", "ports_states", "node"): "A", ("ports_states", "node", "ports_out", "o"): "C"}.get((a[0], a[2], b[0], b[2]))
        if M is None:
            return None
        law = {"A": "i w X = A X + B U", "B": "i w X = A X + B U", "C": "Y = C X + D U", "D": "Y = C X + D U"}[M] + ", " + M
        t = ("item", A(M), ("tuple", (b[1], a[1])))

        def exp(c):
            v = KAlg(c.net.K)(t)
            # an entry that is zero is not inserted
            if c.zero(v):
                return num(0)
            return v / I2PIF if M in "AB" else v
        return law, exp
    family(ctx, flow, "StateSpaceModel", where, cl, ["i w X = A X + B U, A", "i w X = A X + B U, B", "Y = C X + D U, C", "Y = C X + D U, D"],
           [("not", ("maxcut", KF, A("max_freq")))])


# ------------------------------------------------------------------ filters
HZC = ("hzc", ("F", "k"))
ABS = ("call", ("global", "builtins.abs"), (HZC,), ())
NODC = [("not", ("DC", KF)), ("not", ("cmp", "==", C(0), HZC))]


def less(a, b):
    return [("cmp", "<", a, b), ("not", ("cmp", "==", a, b))]


INBAND = NODC + less(ABS, A("F_cutoff")) + less(A("F_cutoff_low"), ABS)


def siso(ctx, flow, cname, where, value, params=None):
    T = {"S": ("port_coupling_insert", (("ps_In.i", "from", KEY), ("ps_Out.o", "to", KEY)))}
    rule(ctx, "%s: the output is the response times the input" % cname, where, flow, T, lambda c: c("S") - value(c), params, INBAND)
    rule(ctx, "%s: nothing passes above the cutoff" % cname, where, flow, T, lambda c: c("S"), None, NODC + less(A("F_cutoff"), ABS))
    rule(ctx, "%s: nothing passes below the lower cutoff" % cname, where, flow, T, lambda c: c("S"), None, NODC + less(ABS, A("F_cutoff_low")))
    dc = {"S": ("port_coupling_insert", (("ps_In.i", "from", DCKEY), ("ps_Out.o", "to", DCKEY)))}
    rule(ctx, "%s: nothing passes at DC when blocked" % cname, where, flow, dc, lambda c: c("S"), None, [A("no_DC")])
    only(ctx, flow, cname, {port("ps_In.i")}, {port("ps_Out.o")})


def only(ctx, flow, cname, ins, outs):
    con = "%s: only the input drives the output" % cname
    bad = [(x, why) for x, why in strays(flow, ins, outs) if why is not None]
    for x, why in bad:
        ctx.fail("structure", con, x.e.loc, why)
    if not bad:
        ctx.ok("structure", con)


def hermitian_filter_lists(ctx, prog, where):
    """product of (1 - iF/root) over numerator and denominator roots; complex roots come in conjugate pairs"""
    ci = prog.get_class(S + "ZPSOS", "SRationalFilter")
    for N in (0, 1, 2, 3):
        it = Interp(prog, ci)
        it.constructor_state()
        rs = {}
        for n in ("zeros_r", "poles_r", "zeros_c", "poles_c"):
            rs[n] = [("attr", SELF, "%s_%d" % (n, i)) for i in range(N)]
            it.store[(SELF, n)] = ("tuple", tuple(rs[n]))
        it.store[(SELF, "gain_F_Hz")] = C(0)
        name = "SRationalFilter: gain and delay times the product over %d roots of each kind" % N
        new_budget()
        try:
            t = it.reify(it.run_method("filter_func", [FREQ]))
            K = Keys(None, {})
            cx = set(x for n in ("zeros_c", "poles_c") for x in rs[n])
            delay = A("delay_s")
            items = [Item(K, (), t, "S"), Item(K, (), ("attr", A("gain"), "val"), "g"), Item(K, (), ("attr", delay, "val"), "tau")]
            alg = KAlg(K)

            class P(KAlg):
                pass
            sums = split(items, frozenset())
            ok = True
            for fs, s in sums:
                one = num(1)
                exp = s["g"]
                for n, sg in (("zeros_r", 1), ("zeros_c", 1), ("poles_r", -1), ("poles_c", -1)):
                    for x in rs[n]:
                        r = alg(x)
                        f = one - IMAG * HZ / r
                        if n.endswith("c"):
                            rc = alg(("call", ("attr", x, "conjugate"), (), ()))
                            f = f * (one - IMAG * HZ / rc)
                        exp = exp * f if sg > 0 else exp / f
                if not (("cmp", "==", NONE, ("attr", delay, "val")) in fs or ("cmp", "==", ("attr", delay, "val"), NONE) in fs):
                    exp = exp * r_exp(-(I2PIF * s["tau"]))
                if not (s["S"] - exp).is_zero():
                    ok = False
                    ctx.fail("law", name, where, "response is %s" % repr(s["S"])[:300])
                    break
        except AnalysisBroken:
            raise
        except BAD as ex:
            ctx.undecided("%s: %s %s" % (name, type(ex).__name__, str(ex)[:140]))
            continue
        if ok:
            ctx.ok("law", name)


# ------------------------------------------------------------------ products
TRI = "nonlinear_triplet_insert"
HK, HM = ("hz", ("F", "k")), ("hz", FM)
SUM = ((("F", "k"), Fraction(1)), (FM, Fraction(1)))


def sgn(c, a):
    """sign of frequency atom a as the algebra writes it"""
    return sign_of(atom(a))


def osc(*fs):
    return [("not", ("DC", f)) for f in fs]


def mixer(ctx, flow, where):
    for out, q in (("ps_R_I.o", False), ("ps_R_Q.o", True)):
        for dc in (False, True):
            km = fkey(-1, 0) if dc else fkey(0, 1)
            kt = DCKEY if dc else fkey(1, 1)
            T = {"S": (TRI, (("ps_LO.i", "from", fkey()), ("ps_In.i", "source", km), (out, "to", kt)))}
            w = Fraction(1, 4) if dc else Fraction(1, 2)
            rule(ctx, "Mixer: the %s output is the product of the inputs%s%s" % ("Q" if q else "I", " with the local oscillator turned by 90 degrees" if q else "", " (DC part)" if dc else ""),
                 where, flow, T, lambda c, q=q, w=w: c("S") - (IMAG * sgn(c, HK) if q else num(1)) * num(w),
                 facts=osc(KF) + ([] if dc else osc(KM, SUM)))
    triads(ctx, flow, "Mixer", [(("ps_LO.i", "ps_In.i"), o) for o in ("ps_R_I.o", "ps_R_Q.o")])


def triads(ctx, flow, cname, table, linear=()):
    """every product coupling is one of the table's and lands on the sum of the frequencies; linear ones keep the frequency"""
    con = "%s: no other products" % cname
    ok = True
    tab = set((tuple(sorted(map(repr, (port(a), port(b))))), port(o)) for (a, b), o in table)
    lin = set((port(a), port(b)) for a, b in linear)
    for x in instances(flow):
        if any(m.nf is None for m in x.members):
            raise Undecided("key at %s" % x.e.loc)
        to = [m for m in x.members if m.role == "to"][0]
        fr = [m for m in x.members if m.role != "to"]
        if len(fr) == 2:
            f = {}
            for m in fr:
                for a, n in m.nf[1]:
                    f[a] = f.get(a, 0) + n
            f = dict((a, n) for a, n in f.items() if n)
            good = (tuple(sorted(repr(m.port) for m in fr)), to.port) in tab and f == dict(to.nf[1])
        else:
            good = len(fr) == 1 and (fr[0].port, to.port) in lin and fr[0].nf == to.nf
        if not good:
            ok = False
            ctx.fail("structure", con, x.e.loc, "couples %s to %s" % (" and ".join(show(m.port)[:60] for m in fr), show(to.port)[:60]))
    if ok:
        ctx.ok("structure", con)


def modulator(ctx, flow, where):
    ph = {"ph": ("attr", A("phase_rad"), "val")}

    def turn(c):
        s = c.sign(("hzc", ("F", "k")))
        if s is None:
            s0 = c("L")
            return s0
        return r_exp(IMAG * c.P("ph") * num(s)) if s else num(1)
    L = ("port_coupling_insert", (("ps_In.i", "from", fkey()), ("ps_Out.o", "to", fkey())))
    hzc = ("hzc", ("F", "k"))
    for s in (1, -1):
        side = [("cmp", "<", C(0), hzc) if s > 0 else ("cmp", "<", hzc, C(0)), ("not", ("cmp", "==", C(0), hzc))]
        exp = lambda c, s=s: r_exp(IMAG * c.P("ph") * num(s))
        nm = "+f" if s > 0 else "-f"
        rule(ctx, "Modulator: the carrier passes with the phase offset, %s" % nm, where, flow, {"L": L}, lambda c, exp=exp: c("L") - exp(c), ph, side + osc(KF))
        for drv, q in (("Mod_amp", False), ("Mod_phase", True)):
            for dc in (False, True):
                km, kt = (fkey(-1, 0), DCKEY) if dc else (fkey(0, 1), fkey(1, 1))
                T = {"S": (TRI, (("ps_In.i", "from", fkey()), (drv + ".i", "source", km), ("ps_Out.o", "to", kt)))}
                w = Fraction(1, 4) if dc else Fraction(1, 2)
                rule(ctx, "Modulator: first order %s sidebands of the carrier at %s%s" % ("phase" if q else "amplitude", nm, " (DC part)" if dc else ""), where, flow, T,
                     lambda c, q=q, w=w, exp=exp: c("S") - (IMAG * sgn(c, HK) if q else num(1)) * num(w) * exp(c), ph,
                     side + osc(KF) + ([] if dc else osc(KM, SUM)))
    triads(ctx, flow, "Modulator", [(("ps_In.i", d), "ps_Out.o") for d in ("Mod_amp.i", "Mod_phase.i")], [("ps_In.i", "ps_Out.o")])


def mean_square(ctx, flow, where):
    rule(ctx, "MeanSquareMixer: each pair of conjugate components adds half its product", where, flow,
         {"S": (TRI, (("ps_In.i", "from", fkey()), ("ps_In.i", "source", fkey(-1)), ("MS.o", "to", DCKEY)))},
         lambda c: c("S") - num(Fraction(1, 2)), facts=osc(KF))
    rule(ctx, "MeanSquareMixer: the DC value adds its square", where, flow,
         {"S": ("port_coupling_insert", (("ps_In.i", "from", DCKEY), ("MS.o", "to", DCKEY), ("ps_In.i", "source", DCKEY))),
          "T": (TRI, (("ps_In.i", "from", DCKEY), ("ps_In.i", "source", DCKEY), ("MS.o", "to", DCKEY)))},
         lambda c: c("S") + c("T") - num(1))
    triads(ctx, flow, "MeanSquareMixer", [(("ps_In.i", "ps_In.i"), "MS.o")])


def harmonic(ctx, flow, where):
    def T(a, b, to):
        return {"S": (TRI, (("ps_In.i", "from", a), ("ps_In.i", "source", b), ("ps_Out.o", "to", to)))}
    ck, cm = ("hzc", ("F", "k")), ("hzc", FM)
    pos = lambda a: [("cmp", "<", C(0), a), ("not", ("cmp", "==", C(0), a))]
    ngt = lambda a: [("cmp", "<", a, C(0)), ("not", ("cmp", "==", C(0), a))]
    for s, f in (("+f", pos), ("-f", ngt)):
        rule(ctx, "Harmonic2Generator: the square of a component, %s" % s, where, flow, T(fkey(), fkey(), fkey(2)), lambda c: c("S") - num(1), facts=f(ck) + osc(KF))
        rule(ctx, "Harmonic2Generator: products of different components of the same sign, %s" % s, where, flow, T(fkey(), fkey(0, 1), fkey(1, 1)),
             lambda c: c("S") - num(2), facts=f(ck) + f(cm) + osc(KF, KM, SUM))
    rule(ctx, "Harmonic2Generator: no difference frequencies", where, flow, T(fkey(), fkey(0, 1), fkey(1, 1)), lambda c: c("S"), facts=pos(ck) + ngt(cm) + osc(KF, KM, SUM))
    triads(ctx, flow, "Harmonic2Generator", [(("ps_In.i", "ps_In.i"), "ps_Out.o")])


def generator(ctx, flow, where):
    """sources of the generator by the frequency they drive"""
    V = ("attr", A("phase_rad"), "val")
    n = 0
    for x in instances(flow):
        if x.method != "coherent_sources_insert" or any(m.nf is None or not m.nf[1] or len(m.nf[1]) != 1 for m in x.members):
            raise Undecided("source at %s" % x.e.loc)
        m = x.members[0]
        (a, k), = m.nf[1]
        h = None
        if m.port == port("ps_Out.o"):
            name, t = "amplitude and phase", (A("amplitude") if k > 0 else A("amplitudeC"))
        else:
            q = m.port
            e = [y for y in walk(q) if y and y[0] == "elem" and y[1] == A("harmonic_gains")]
            if q[0] != "attr" or q[2] != "o" or not e:
                ctx.fail("structure", "SignalGenerator: only its outputs are driven", x.e.loc, "drives %s" % show(q)[:80])
                continue
            h = e[0]
            name, t = "harmonic gains and phases", ("item", A("harmonic_gains"), h)
        n += 1
        T = {"S": (x.method, [(m.port, m.role, m.nf)])}

        def exp(c, t=t, h=h, k=k):
            v = KAlg(c.net.K)(t)
            if h is not None and k < 0:
                v = r_conj(v, lambda y: y[0] != "cx")
            p = c.P("ph") * num(1 if k > 0 else -1)
            return v * r_exp(IMAG * (p if h is None else p * KAlg(c.net.K)(h)))
        rule(ctx, "SignalGenerator: %s at %sf" % (name, "+" if k > 0 else "-"), where, flow, T, lambda c, exp=exp: c("S") - exp(c), {"ph": V})
    for s in ("amplitude and phase at +f", "amplitude and phase at -f", "harmonic gains and phases at +f", "harmonic gains and phases at -f"):
        pass
    if n < 2:
        ctx.fail("structure", "SignalGenerator: drives +f and -f", where, "%d sources" % n)


def tfac(ctx, prog, where):
    ci = prog.get_class(S + "siso_filter", "TFACArray")
    flow = ElementFlow(prog, ci, opaque=("check_F_AC_only",))
    order = None
    for x in instances(flow):
        for m in x.members:
            if m.nf is None:
                raise Undecided("key at %s" % x.e.loc)
    only(ctx, flow, "TFACArray", {port("ps_In.i")}, {port("ps_Out.o")})
    T = {"S": ("port_coupling_insert", (("ps_In.i", "from", KEY), ("ps_Out.o", "to", KEY)))}
    net = FNet(flow, T, {"g": A("gain_array"), "gC": A("gain_arrayC")})
    seen = set()
    for c in net.cases:
        if c("S").is_zero():
            continue
        s = [f for f in c.facts if f[0] == "cmp" and f[1] in ("<", "<=") and "F_dict" in repr(f)]
        if not s or any(f[0] == "cmp" and f[1] == "==" and "F_dict" in repr(f) for f in c.facts):
            continue
        up = s[0][2] == C(0)
        seen.add(up)
        ctx.check((c("S") - c.P("g" if up else "gC")).is_zero(), "law", "TFACArray: the gain %s" % ("at +f" if up else "at -f is the conjugate one"), where,
                  "gain is %s" % repr(c("S"))[:100])
    if seen != {True, False}:
        raise Undecided("cases of the array gain")


def tfac_applies(ctx, prog, where):
    try:
        tfac_components(ctx, prog, where)
    except Unreadable as ex:
        raise Undecided("unreadable: %s" % ex)
    except SurelyFails as ex:
        ctx.fail("law", "TFACArray: a component it does not respond to is passed over", where, "raises %s" % ex)


def tfac_components(ctx, prog, where):
    """the array of responses belongs to +f and -f of the signal frequency and nothing else, whichever end asks"""
    ci = prog.get_class(S + "siso_filter", "TFACArray")
    FA, FB = C("F_AC"), C("F_other")

    class Both(Builder):
        def method(self, it, name, args, kw):
            if name == "port_coupling_insert":
                if it.guards or any(x[0] != "const" for x in args[:4]):
                    raise Unreadable("unclear coupling")
                self.injections.append(tuple(x[1] for x in args[:4]) + (args[4],))
                return NONE
            return Builder.method(self, it, name, args, kw)
    kinds = [("+f", [(FA, 1)], "gain_array"), ("-f", [(FA, -1)], "gain_arrayC"), ("2f", [(FA, 2)], None), ("-2f", [(FA, -2)], None), ("DC", [], None),
             ("another frequency", [(FB, 1)], None), ("f and another", [(FA, 1), (FB, 1)], None), ("-f and another", [(FA, -1), (FB, -2)], None)]
    keys = [ckey(f) for _, f, _ in kinds]

    def start():
        w = World(prog, exact=True, values=("DictKey", "FrequencyKey"), new_hook=new_key)
        w.it.opts["recursion"] = 20
        obj = w.it.fresh(ci)
        for n, v in dict(ps_In=C(Port("ps_In")), ps_Out=C(Port("ps_Out")), F_AC=FA, gain_array=("sym", "g"), gain_arrayC=("sym", "gC")).items():
            w.it.store[(obj, n)] = v
        return w, obj
    I, O = Port("ps_In", "i"), Port("ps_Out", "o")
    for here, there, what in ((I, O, "input"), (O, I, "output")):
        w, obj = start()
        b = Both([(here, k) for k in keys], [(here, k) for k in keys])
        w.call(obj, "system_setup_ports", C(b))
        want = [(there, k) for k, (_, _, g) in zip(keys, kinds) if g]
        ctx.check(len(b.needed) == len(want) and all(x in b.needed for x in want), "law", "TFACArray: components requested from its %s" % what, where,
                  "requests %s" % [repr(x)[:60] for x in b.needed if x not in want or len(b.needed) != len(want)][:2])
    w, obj = start()
    b = Both([(p, k) for p in (I, O) for k in keys], [])
    w.call(obj, "system_setup_coupling", C(b))
    for (n, _, g), k in zip(kinds, keys):
        got = [x for x in b.injections if x[1] == k]
        want = [(I, k, O, k, ("sym", {"gain_array": "g", "gain_arrayC": "gC"}[g]))] if g else []
        ctx.check(got == want, "law", "TFACArray: at %s" % n, where, "couples %s" % [repr(x)[:90] for x in got][:2])


def run(ctx):
    prog = ctx.prog

    def part(mod, cls, f, *a):
        def body(ctx):
            ci = prog.get_class(S + mod, cls)
            f(ctx, ElementFlow(prog, ci), *(a + ("phasor/signals/%s.py" % mod,)) if not a else a)
        guarded(ctx, cls, body)
    W = lambda m: "phasor/signals/%s.py" % m
    part("amplifiers", "DistributionAmplifier", distribution)
    part("amplifiers", "SummingAmplifier", summing)
    part("amplifiers", "MatrixAmplifier", matrix("MatrixAmplifier", "port_pair_gains", "pair gains", lambda t: t))
    part("mimo_filter", "TransferFunctionMIMO", matrix("TransferFunctionMIMO", "port_pair_xfers", "pair responses at the signal frequency", lambda t: ("call", t, (FREQ,), ())))
    part("state_space", "StateSpaceModel", state_space)
    part("siso_filter", "Gain", lambda ctx, fl, w: siso(ctx, fl, "Gain", w, lambda c: c.P("g"), {"g": fl.it2.reify(fl.it2.get_attr(SELF, "gain"))}))
    part("siso_filter", "TransferFunctionSISO", lambda ctx, fl, w: siso(ctx, fl, "TransferFunctionSISO", w, lambda c: c.P("g"), {"g": ("call", A("filter"), (FREQ,), ())}))
    part("siso_filter", "TransferFunctionSISOMechSingleResonance", lambda ctx, fl, w: siso(
        ctx, fl, "TransferFunctionSISOMechSingleResonance", w,
        lambda c: num(1) / (c.P("m") * num(4) * PI * PI * (c.P("f0") * c.P("f0") - HZ * HZ + IMAG * HZ * c.P("w"))),
        {"m": A("mass_kg"), "f0": A("center_Hz"), "w": A("FWHM_Hz")}))
    guarded(ctx, "SRationalFilter", hermitian_filter_lists, prog, W("ZPSOS"))
    guarded(ctx, "TransferFunctionSISO", siso_given, prog, W("siso_filter"))
    guarded(ctx, "TFACArray", tfac, prog, W("siso_filter"))
    guarded(ctx, "TFACArray", tfac_applies, prog, W("siso_filter"))
    guarded(ctx, "cutoffs", cutoff_rule, prog)
    part("mixer", "Mixer", mixer)
    part("mixer", "Modulator", modulator)
    part("mixer", "Harmonic2Generator", harmonic)
    part("RMS", "MeanSquareMixer", mean_square)
    part("signal_generator", "SignalGenerator", generator)
    ctx.floor("law", 30)


class Rate(Value):
    def __init__(self, hz):
        self.hz = hz

    def attr(self, it, name):
        return C(Rate(self.hz)) if name == "F_Hz" else C(self.hz) if name == "val" else None


def cutoffs(ctx, prog):
    """a component is beyond a cutoff when none of the frequencies solved for lies inside it, whatever its sign"""
    ci = prog.get_class("phasor.system.system", "BGSystem")
    m = ci.members.get("classical_frequency_test_max")
    where = "%s:%d" % (ci.module.path, m.lineno if m is not None else ci.node.lineno)

    def calls(w, func, args, kw):
        name = func[2] if func[0] == "attr" else func[1].split(".")[-1] if func[0] == "global" else None
        vals = [func[1]] if func[0] == "attr" and func[1][0] != "global" else list(args[:1])
        if not vals:
            return None
        if name in ("abs", "absolute", "fabs") and vals[0][0] == "const":
            return C(Num([abs(x) for x in vals[0][1].v]) if isinstance(vals[0][1], Num) else abs(vals[0][1]))
        if name in ("asarray", "array") and vals[0][0] == "const":
            return vals[0]
        if name in ("min", "max", "amin", "amax") and vals[0][0] == "const" and isinstance(vals[0][1], Num):
            return C(float((min if "min" in name else max)(x.real for x in vals[0][1].v)))
        if name in ("any", "all", "logical_not", "not"):
            if vals[0][0] == "const" and isinstance(vals[0][1], (bool, int)):
                return C(bool(vals[0][1]))
            return C((any if name == "any" else all)(mask(vals[0], 3)))
        return None
    F1, F2 = (7., 3., 2.), (1., 1.5, 1.)
    for title, d in (("+f", [(F1, 1)]), ("-f", [(F1, -1)]), ("2f", [(F1, 2)]), ("f+g", [(F1, 1), (F2, 1)]), ("f-g", [(F1, 1), (F2, -1)]), ("-f+2g", [(F1, -1), (F2, 2)]), ("-f-g", [(F1, -1), (F2, -1)])):
        f = [abs(sum(v[i] * n for v, n in d)) for i in range(3)]
        for top in (None, .25, 2.75, 6.5, 20.):
            w = World(prog, exact=True, values=("DictKey", "FrequencyKey"), new_hook=new_key, calls=calls)
            plain = w.it.builtin

            def builtin(name, args, kwargs, node, w=w, plain=plain):
                r = calls(w, ("global", name), args, kwargs) if any(a[0] == "const" and isinstance(a[1], Num) or a[0] in ("cmp", "not", "and", "or") for a in args) else None
                return r if r is not None else plain(name, args, kwargs, node)
            w.it.builtin = builtin
            key = C(Key({CLS: C(Freq([(C(Rate(Num([complex(x) for x in v]))), n) for v, n in d]))}))
            r = w.it.reify(w.call(w.it.fresh(ci), "classical_frequency_test_max", key, C(top)))
            if not (r[0] == "const" and isinstance(r[1], (bool, int))):
                raise Undecided("the cutoff test gives %s" % show(r)[:80])
            want = top is not None and not any(x < top for x in f)
            ctx.check(bool(r[1]) == want, "law", "cutoff %s of a component %s at several frequencies" % (top, title), where,
                      "at %s Hz it is %sbeyond" % (f, "" if r[1] else "not "))


def cutoff_rule(ctx, prog):
    try:
        cutoffs(ctx, prog)
    except Unreadable as ex:
        raise Undecided("unreadable: %s" % ex)
    except SurelyFails as ex:
        ctx.fail("law", "cutoffs of filters", "phasor/system/system.py", "raises %s" % ex)


def siso_given(ctx, prog, where):
    ci = prog.get_class(S + "siso_filter", "TransferFunctionSISO")
    it = Interp(prog, ci)
    f = it.method("__init__")
    it.call_func(f, [("param", a.arg) for a in it.funcs[f[1]].node.args.args[1:]], [], None)
    vals = [v for k, v in it.store.items() if k[1] == "filter"]
    if not vals:
        raise Undecided("the response is kept elsewhere")
    ctx.check(any(it.reify(v) == ("param", "filter_func") for v in vals), "law", "TransferFunctionSISO: the response is the given one", where,
              "keeps %s" % show(it.reify(vals[0]))[:100])
