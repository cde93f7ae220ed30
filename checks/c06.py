"""C06: electrical elements obey their circuit laws for every incoming wave."""
from sa.laws import Net, port, self_attr, method_term, strays, I2PIF, DCKEY, FREQ
from sa.algebra import num, NotAlgebraic, r_exp, new_budget
from sa.coupling import Undecided
from sa.interp import SELF, NONE, C, walk
from sa.portflow import ElementFlow
from sa.loader import AnalysisBroken
from checks.c01 import element_classes

EXPLANATION = (
    "For every electrical element class the total scattering coefficient between each pair of its ports is computed from its setup code "
    "as an algebraic normal form in the frequency and the element parameters (all conditions split), and the circuit law of the element "
    "(voltage = i + o, current into the element = (i - o)/Z0 at every terminal) is checked as an algebraic identity for every "
    "incoming wave.  Couplings outside the declared terminals, or changing the frequency, are violations.")
ASSUMPTIONS = ("the reference impedance Ze_termination is the same for all elements of a circuit",)

P = "phasor.electronics."
Z0 = "Ze_termination"


class Spec:
    """pins: terminals (both waves); ins / outs: further one way waves; laws: [(name, f(L, x))] one residual per excitation x"""

    noport = False
    tol = False         # constants below 1e-12 of the rest count as zero (regularisation)
    opaque = False      # leave the methods named in params uninterpreted: the law holds for every override

    def __init__(self, pins, laws, ins=(), outs=(), params=None, facts=(), alt=None):
        self.pins, self.laws, self.params, self.facts, self.alt = list(pins), list(laws), dict(params or {}), tuple(facts), alt
        self.ins = [p + ".i" for p in pins] + list(ins)
        self.outs = [p + ".o" for p in pins] + list(outs)

    def with_params(self, **kw):
        p = dict(self.params)
        p.update(kw)
        s = Spec([], self.laws, (), (), p, self.facts, self.alt)
        s.pins, s.ins, s.outs = self.pins, self.ins, self.outs
        s.noport, s.opaque, s.tol = self.noport, self.opaque, self.tol
        return s


class Law:
    """responses to one incoming wave x of unit amplitude"""

    def __init__(self, case):
        self.c = case
        self.z = case.P("Z0")
        self.P = case.P
        self.DC = case.DC

    def S(self, x, b):
        return self.c.S(x, b)

    def o(self, p, x):
        return self.c.S(x, p + ".o")

    def i(self, p, x):
        return num(1) if x == p + ".i" else num(0)

    def V(self, p, x):
        return self.i(p, x) + self.o(p, x)

    def I(self, p, x):
        """current (flow) into the element at pin p"""
        return (self.i(p, x) - self.o(p, x)) / self.z


A = self_attr


def delta(x, name):
    return num(1) if x == name else num(0)


def imp1(Z, a="pe_A"):
    return Spec([a], [("V = Z I", lambda L, x: L.V(a, x) - Z(L) * L.I(a, x))])


def adm1(Y, a="pe_A"):
    return Spec([a], [("I = Y V", lambda L, x: L.I(a, x) - Y(L) * L.V(a, x))])


def imp2(Z, a="pe_A", b="pe_B"):
    return Spec([a, b], [("I_A = -I_B", lambda L, x: L.I(a, x) + L.I(b, x)),
                         ("V_A - V_B = Z I", lambda L, x: L.V(a, x) - L.V(b, x) - Z(L) * L.I(a, x))])


def adm2(Y, a="pe_A", b="pe_B"):
    return Spec([a, b], [("I_A = -I_B", lambda L, x: L.I(a, x) + L.I(b, x)),
                         ("I = Y (V_A - V_B)", lambda L, x: L.I(a, x) - Y(L) * (L.V(a, x) - L.V(b, x)))])


def par(name):
    return lambda L: L.P(name)


def voltage_readout(term, neg_, out):
    """out = (i + o) at term minus (i + o) at neg_ when there is one"""
    def law(L, x):
        e = num(0)
        if x in (term + ".i", term + ".o"):
            e = num(1)
        if x in (neg_ + ".i", neg_ + ".o") and not L.c.has(("cmp", "==", A(neg_), NONE)):
            e = num(-1)
        return L.S(x, out) - e
    return Spec([], [("reads V", law)], ins=[term + ".i", term + ".o", neg_ + ".i", neg_ + ".o"], outs=[out])


def current_readout(term, out, direction="direction"):
    def law(L, x):
        into = L.c.has(("cmp", "==", A(direction), ("const", "in")))
        outof = L.c.has(("cmp", "==", A(direction), ("const", "out")))
        if not (into or outof):
            return num(0)
        s = num(1 if into else -1) * num(1 if x == term + ".i" else -1)
        return L.S(x, out) - s / L.z
    return [Spec([], [("reads I", law)], ins=[term + ".i", term + ".o"], outs=[out], facts=[("cmp", "==", A(direction), ("const", d))])
            for d in ("in", "out")]


def node(coll="ports_electrical"):
    """ideal junction of N pins: equal voltages, currents sum to zero (N symbolic)"""
    e1, e2 = ("elem", A(coll), 71), ("elem", A(coll), 72)
    i1, o1, o2 = ("attr", e1, "i"), ("attr", e1, "o"), ("attr", e2, "o")
    s = Spec([], [("equal V at all pins", lambda L, x: num(1) + L.S(i1, o1) - L.S(i1, o2)),
                  ("currents sum to zero", lambda L, x: num(1) - L.S(i1, o1) - (L.P("N") - num(1)) * L.S(i1, o2))],
             params={"N": ("call", ("global", "builtins.len"), (A(coll),), ())}, facts=[("not", ("cmp", "==", e1, e2))])
    s.ins, s.outs = [i1], [o1, o2]
    s.noport = True
    return s


def across(virt, a, b, odd):
    """a fluctuation source at a terminal: half to each wave, opposite signs for a potential (series), equal for a flow (shunt)"""
    return Spec([], [("half to the incoming wave", lambda L, x: L.S(x, a) - num(1) / num(2)),
                     ("half to the outgoing wave", lambda L, x: L.S(x, b) - num(-1 if odd else 1) / num(2))], ins=[virt], outs=[a, b])


def table():
    t = {}

    def add(name, spec, **params):
        t[P + name] = [s.with_params(**params) for s in (spec if isinstance(spec, list) else [spec])]
        if any(isinstance(v, str) for v in params.values()):
            for s in t[P + name]:
                s.opaque = True

    add("smatrix:TerminatorOpen", Spec(["pe_A"], [("I = 0", lambda L, x: L.I("pe_A", x))]))
    add("smatrix:TerminatorShorted", Spec(["pe_A"], [("V = 0", lambda L, x: L.V("pe_A", x))]))
    add("smatrix:TerminatorMatched", Spec(["pe_A"], [("V = Z0 I", lambda L, x: L.V("pe_A", x) - L.z * L.I("pe_A", x))]))
    add("passive:TerminatorImpedance", imp1(par("m")), m="impedance_by_freq")
    add("passive:TerminatorAdmittance", adm1(par("m")), m="admittance_by_freq")
    add("passive:SeriesImpedance", imp2(par("m")), m="impedance_by_freq")
    add("passive:SeriesAdmittance", adm2(par("m")), m="admittance_by_freq")
    res = par("R")
    cap = lambda L: I2PIF * L.P("Cf")
    ind = lambda L: L.P("R") + I2PIF * L.P("L")
    for pre, i, a in (("Terminator", imp1, adm1), ("Series", imp2, adm2)):
        add("passive:%sResistor" % pre, i(res), R=A("resistance_Ohms"))
        add("passive:%sCapacitor" % pre, a(cap), Cf=A("capacitance_Farads"))
        add("passive:%sInductor" % pre, i(ind), R=A("resistance_Ohms"), L=A("inductance_Henries"))
    pins = ["pe_A", "pe_B", "pe_C", "pe_D"]

    def dV(L, a, b, x):
        return L.V(a, x) - L.V(b, x)
    z4 = Spec(pins, [
        ("I_A = -I_B", lambda L, x: L.I("pe_A", x) + L.I("pe_B", x)),
        ("I_C = -I_D", lambda L, x: L.I("pe_C", x) + L.I("pe_D", x)),
        ("V_A - V_B = Z11 I_A + Z12 I_C", lambda L, x: dV(L, "pe_A", "pe_B", x) - L.P("Z11") * L.I("pe_A", x) - L.P("Z12") * L.I("pe_C", x)),
        ("V_C - V_D = Z21 I_A + Z22 I_C", lambda L, x: dV(L, "pe_C", "pe_D", x) - L.P("Z21") * L.I("pe_A", x) - L.P("Z22") * L.I("pe_C", x)),
    ], params=dict(Z11="Z11_by_freq", Z12="Z12_by_freq", Z21="Z21_by_freq", Z22="Z22_by_freq"))
    # what the present formulas satisfy instead of V = Z I (see the known finding)
    z4.alt = ("inverts the impedance matrix entry by entry", {
        "V_A - V_B = Z11 I_A + Z12 I_C": lambda L, x: L.I("pe_A", x) - dV(L, "pe_A", "pe_B", x) / L.P("Z11") - dV(L, "pe_C", "pe_D", x) / L.P("Z12"),
        "V_C - V_D = Z21 I_A + Z22 I_C": lambda L, x: L.I("pe_C", x) - dV(L, "pe_A", "pe_B", x) / L.P("Z21") - dV(L, "pe_C", "pe_D", x) / L.P("Z22")})
    z4.opaque = True
    # reciprocal networks
    z4.facts = (("cmp", "==", ("call", A("Z12_by_freq"), (FREQ,), ()), ("call", A("Z21_by_freq"), (FREQ,), ())),)
    t[P + "passive:Z2x2To4Port"] = [z4]
    wind = [("Z11 = R1 + i w L1", lambda L: L.P("Z11") - L.P("R1") - I2PIF * L.P("L1")),
            ("Z22 = R2 + i w L2", lambda L: L.P("Z22") - L.P("R2") - I2PIF * L.P("L2")),
            ("Z12^2 = (i w k)^2 L1 L2", lambda L: L.P("Z12") * L.P("Z12") - I2PIF * I2PIF * L.P("k") * L.P("k") * L.P("L1") * L.P("L2")),
            ("Z12 = Z21", lambda L: L.P("Z12") - L.P("Z21"))]
    wp = dict(Z11="Z11_by_freq", Z12="Z12_by_freq", Z21="Z21_by_freq", Z22="Z22_by_freq", k="transformer_k_by_freq",
              R1=A("L1_resistance_Ohms"), R2=A("L2_resistance_Ohms"), L1=A("L1_inductance_Henries"), L2=A("L2_inductance_Henries"))
    t[P + "passive:Transformer"] = [Spec(pins, [(n, (lambda f: lambda L, x: f(L))(f)) for n, f in wind], params=wp)]
    delay = lambda L: r_exp(-I2PIF * L.P("len") * num(1) / num(10 ** 9))
    add("elements:Cable", Spec(["pe_A", "pe_B"], [
        ("o_B = exp(-i w tau) i_A", lambda L, x: L.o("pe_B", x) - delta(x, "pe_A.i") * delay(L)),
        ("o_A = exp(-i w tau) i_B", lambda L, x: L.o("pe_A", x) - delta(x, "pe_B.i") * delay(L))]), len=A("length_ns"))
    add("elements:Connection", node())
    add("sources:VoltageSource", Spec(["pe_A"], [
        ("V_A = V", lambda L, x: L.V("pe_A", x) - delta(x, "V.i")),
        ("V_A = V_DC at DC", lambda L, x: L.DC("pe_A.o") - L.P("V_DC"))], ins=["V.i"]), V_DC=A("V_DC"))
    add("sources:CurrentSource", Spec(["pe_A"], [
        ("current out = I", lambda L, x: -L.I("pe_A", x) - delta(x, "ps_In.i")),
        ("current out = I_DC at DC", lambda L, x: L.DC("pe_A.o") / L.z - L.P("I_DC"))], ins=["ps_In.i"]), I_DC=A("I_DC"))
    add("sources:VoltageSourceBalanced", Spec(["pe_A", "pe_B"], [
        ("V_A - V_B = V", lambda L, x: dV(L, "pe_A", "pe_B", x) - delta(x, "V.i")),
        ("currents out sum to I", lambda L, x: -L.I("pe_A", x) - L.I("pe_B", x) - delta(x, "ps_In.i")),
        ("V_A - V_B = V_DC at DC", lambda L, x: L.DC("pe_A.o") - L.DC("pe_B.o") - L.P("V_DC")),
        ("currents out sum to I_DC at DC", lambda L, x: (L.DC("pe_A.o") + L.DC("pe_B.o")) / L.z - L.P("I_DC")),
    ], ins=["V.i", "ps_In.i"]), V_DC=A("V_DC"), I_DC=A("I_DC"))
    add("sources:CurrentSourceBalanced", Spec(["pe_A", "pe_B"], [
        ("current out of A = I", lambda L, x: -L.I("pe_A", x) - delta(x, "ps_In.i")),
        ("current out of B = I", lambda L, x: -L.I("pe_B", x) - delta(x, "ps_In.i")),
        ("DC current out of A", lambda L, x: L.DC("pe_A.o") - L.P("I_DC") * L.z),
        ("DC current out of B", lambda L, x: L.DC("pe_B.o") - L.P("I_DC") * L.z),
    ], ins=["ps_In.i"]), I_DC=A("I_DC"))
    add("opamps:OpAmp", Spec(["in_p", "in_n", "out"], [
        ("no current into in_p", lambda L, x: L.I("in_p", x)),
        ("no current into in_n", lambda L, x: L.I("in_n", x)),
        ("V_out = g (V_p - V_n)", lambda L, x: L.V("out", x) - L.P("g") * dV(L, "in_p", "in_n", x))]), g="gain_by_freq")

    def vamp_out(L, x):
        """V_out = -g V_in + Z_out I_out for the total waves (the input's outgoing wave feeds the output too)"""
        vin = delta(x, "in_n.i") + delta(x, "in_n.o") + L.S(x, "in_n.o")
        o = L.S(x, "out.o") + L.S(x, "in_n.o") * L.S("in_n.o", "out.o")
        i = delta(x, "out.i")
        return (i + o) + L.P("g") * vin - L.P("Zo") * (i - o) / L.z
    add("opamps:VAmp", Spec(["in_n", "out"], [
        ("I_in = Y_in V_in", lambda L, x: num(0) if x == "in_n.o" else L.I("in_n", x) - L.P("Yi") * L.V("in_n", x)),
        ("V_out = -g V_in + Z_out I_out", vamp_out)], ins=["in_n.o"]), g="gain_by_freq", Yi=A("Y_input"), Zo=A("Z_output"))
    add("multimeter:VoltageReadout", voltage_readout("terminal", "terminal_N", "V.o"))
    add("multimeter:CurrentReadout", current_readout("terminal", "I.o"))
    add("noise:VoltageFluctuation", across("p_virt.o", "port.i", "port.o", True))
    add("noise:CurrentFluctuation", across("p_virt.o", "portA", "portB", False))
    return t


def mro_tables(prog, ci, tab):
    return [(c.qual, s) for c in prog.mro(ci) if c.qual in tab for s in tab[c.qual]]


def undecided(ctx, msg):
    ctx.undecided(msg)


def run_table(ctx, tab, zname, ref, covered, classes):
    for ci in classes:
        specs = mro_tables(ctx.prog, ci, tab)
        if not specs:
            continue
        covered.add(ci.qual)
        try:
            flow = ElementFlow(ctx.prog, ci)
        except AnalysisBroken:
            raise
        except Exception as ex:
            undecided(ctx, "%s: %s %s" % (ci.qual, type(ex).__name__, str(ex)[:160]))
            continue
        for qual, sp in specs:
            f = flow
            if sp.opaque:
                if qual != ci.qual:
                    continue
                f = ElementFlow(ctx.prog, ci, [v for v in sp.params.values() if isinstance(v, str)])
            one_spec(ctx, f, ci, qual, sp, zname, ref, qual == specs[0][0])


def terms_of(flow, sp, zname):
    terms = {"Z0": A(zname)}
    for k, v in sp.params.items():
        if isinstance(v, str):
            t = method_term(flow, v)
            if t is None or any(q and q[0] == "opaque" for q in walk(t)):
                return None
            terms[k] = t
        else:
            terms[k] = v
    for k in list(terms):
        if terms[k][0] == "attr" and terms[k][1] == SELF:
            terms[k] = flow.it2.reify(flow.it2.get_attr(SELF, terms[k][2]))
    return terms


def negligible(r):
    """every coefficient of the residual is below 1e-12 of the largest one it is compared with"""
    mags = [abs(complex(c)) if not isinstance(c, tuple) else abs(complex(*c)) for c in r.n.values()]
    den = [abs(complex(c)) if not isinstance(c, tuple) else abs(complex(*c)) for c in r.d.values()]
    return max(mags) < 1e-12 * max(den)


def one_spec(ctx, flow, ci, qual, sp, zname, ref, own):
    name = "%s as %s" % (ci.name, qual.split(":")[-1])
    P_ = lambda x: port(x) if isinstance(x, str) else x
    ins, outs = [P_(p) for p in sp.ins], [P_(p) for p in sp.outs]
    try:
        terms = terms_of(flow, sp, zname)
        if terms is None:
            return undecided(ctx, "%s: parameters not readable" % name)
        if own and not sp.noport:
            for x, why in strays(flow, ins, outs):
                if why is None:
                    undecided(ctx, "%s at %s" % (name, x.e.loc))
                else:
                    ctx.fail("terminals", "%s: %s" % (name, why), x.e.loc, "coupling %s outside its law" % why)
            ctx.ok("terminals", name)
        net = Net(flow, ins, outs, params=terms, source_key=DCKEY, facts=sp.facts)
    except AnalysisBroken:
        raise
    except Exception as ex:
        return undecided(ctx, "%s: %s %s" % (name, type(ex).__name__, str(ex)[:160]))
    for c in net.cases:
        new_budget()
        L = Law(c)
        for lname, f in sp.laws:
            for x in sp.ins:
                con = "%s: %s, wave at %s" % (name, lname, x if isinstance(x, str) else "any pin")
                try:
                    r = f(L, x)
                    if c.zero(r) or (sp.tol and negligible(r)):
                        ctx.ok("law", con)
                        continue
                    if sp.alt is not None:
                        # another characterisation of what is computed: names the known finding, nothing else
                        nz = [f for f in c.facts - c.net.start() if f[0] == "cmp" and f[1] == "==" and f[2] == C(0)]
                        if nz or (lname in sp.alt[1] and c.zero(sp.alt[1][lname](L, x))):
                            con = "%s %s" % (qual.split(":")[-1], sp.alt[0])
                except (NotAlgebraic, Undecided, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as ex:
                    undecided(ctx, "%s %s: %s" % (name, lname, str(ex)[:120]))
                    continue
                ctx.fail("law", con, ref, "residual %r" % (r,))


def run(ctx):
    tab = table()
    classes = [ci for ci in element_classes(ctx.prog) if ci.module.name.startswith("phasor.electronics")]
    covered = set()
    run_table(ctx, tab, Z0, "phasor/electronics", covered, classes)
    ctx.info["classes_covered"] = sorted(covered)
    ctx.info["classes_not_in_a_law"] = sorted(c.qual for c in classes if c.qual not in covered)
