"""C07: mechanical elements obey force and displacement laws for every incoming wave."""
from sa.laws import self_attr, I2PIF, HZ, FREQ, method_term
from sa.algebra import num, r_exp, r_pow, IMAG, NotAlgebraic
from sa.interp import NONE, C, SELF, show
from sa.compose import Composite
from sa.coupling import KAlg, Undecided, lead
from sa.portflow import Keys
from checks.c01 import element_classes
from checks.c06 import (Spec, imp1, adm1, imp2, adm2, par, voltage_readout, current_readout, node, across, run_table, delta, A, undecided)
from fractions import Fraction

EXPLANATION = (
    "For every mechanical element class the total scattering coefficient between each pair of its ports is computed from its setup code as "
    "an algebraic normal form (conditions split, 3-vectors expanded to components), and the element's law between displacements "
    "(d = i + o) and forces into the element (F = (i - o)/Zm) is checked as an identity for every incoming wave.")
ASSUMPTIONS = ("the reference mobility Zm_termination is the same for all elements of a system",
               "a regularising constant below 1e-12 in the string impedance converter is taken to be a small constant")

P = "phasor.mechanical."
ZM = "Zm_termination"


def lever1():
    d = lambda L: L.P("d")
    return Spec(["pm_A", "pm_B", "L"], [
        ("d_A - d_B = x theta", lambda L, x: L.V("pm_A", x) - L.V("pm_B", x) - d(L) * L.V("L", x)),
        ("F_A + F_B = 0", lambda L, x: L.I("pm_A", x) + L.I("pm_B", x)),
        ("torque + x F_A = 0", lambda L, x: L.I("L", x) + d(L) * L.I("pm_A", x))], params={"d": A("displacement")})


def lever3():
    ax = "XYZ"
    pins = [p + "." + a for p in ("pm_A", "pm_B", "L") for a in ax]
    laws = []
    for n in range(3):
        def vec(f, p, L, x):
            return [f(p + "." + a, x) for a in ax]

        def cross(a, b, n=n):
            return a[(n + 1) % 3] * b[(n + 2) % 3] - a[(n + 2) % 3] * b[(n + 1) % 3]

        def dvec(L):
            return [L.P("d%d" % i) for i in range(3)]
        laws += [
            ("d_A - d_B = r x theta, %s" % ax[n], lambda L, x, n=n, cross=cross: L.V("pm_A." + ax[n], x) - L.V("pm_B." + ax[n], x)
             - cross(dvec(L), vec(L.V, "L", L, x))),
            ("F_A + F_B = 0, %s" % ax[n], lambda L, x, n=n: L.I("pm_A." + ax[n], x) + L.I("pm_B." + ax[n], x)),
            ("torque = r x F_A, %s" % ax[n], lambda L, x, n=n, cross=cross: L.I("L." + ax[n], x) - cross(dvec(L), vec(L.I, "pm_A", L, x)))]
    return Spec(pins, laws, params=dict(("d%d" % i, ("item", A("displacementXYZ"), C(i))) for i in range(3)))


def table():
    t = {}

    def add(name, spec, **params):
        t[P + name] = [s.with_params(**params) for s in (spec if isinstance(spec, list) else [spec])]
        if any(isinstance(v, str) for v in params.values()):
            for s in t[P + name]:
                s.opaque = True

    add("smatrix:TerminatorOpen", Spec(["pm_A"], [("F = 0", lambda L, x: L.I("pm_A", x))]))
    add("smatrix:TerminatorShorted", Spec(["pm_A"], [("d = 0", lambda L, x: L.V("pm_A", x))]))
    add("passive:TerminatorMobility", adm1(par("m"), "pm_A"), m="mobility_by_freq")
    add("passive:SeriesMobility", adm2(par("m"), "pm_A", "pm_B"), m="mobility_by_freq")
    damper = lambda L: I2PIF * L.P("R")
    spring = lambda L: L.P("k") if L.c.has(("cmp", "==", A("loss_angle_by_freq"), NONE)) else L.P("k") * (num(1) + IMAG * L.P("phi"))
    mass = lambda L: I2PIF * I2PIF * L.P("m")
    phi = ("call", A("loss_angle_by_freq"), (FREQ,), ())
    for names, y, kw in ((("TerminatorDamper", "SeriesDamper"), damper, dict(R=A("resistance_Ns_m"))),
                         (("TerminatorSpring", "SeriesSpring"), spring, dict(k=A("elasticity_N_m"), phi=phi)),
                         (("Mass", "SeriesMass"), mass, dict(m=A("mass_kg")))):
        add("passive:" + names[0], adm1(y, "pm_A"), **kw)
        add("passive:" + names[1], adm2(y, "pm_A", "pm_B"), **kw)

    def through(L):
        p = r_exp(-I2PIF * L.P("tau"))
        return p if L.c.has(("cmp", "==", C(0), A("Loss"))) else p * r_pow(num(1) - L.P("loss"), Fraction(1, 2))
    add("elements:Cable", Spec(["pm_A", "pm_B"], [
        ("o_B = sqrt(1 - loss) exp(-i w tau) i_A", lambda L, x: L.o("pm_B", x) - delta(x, "pm_A.i") * through(L)),
        ("o_A = sqrt(1 - loss) exp(-i w tau) i_B", lambda L, x: L.o("pm_A", x) - delta(x, "pm_B.i") * through(L))]),
        tau=A("delay_s"), loss=A("Loss"))
    add("elements:Connection", node("ports_mechanical"))
    add("sources:DisplacementSource", Spec(["pm_A"], [
        ("d_A = d", lambda L, x: L.V("pm_A", x) - delta(x, "d.i")),
        ("d_A = d_DC at DC", lambda L, x: L.DC("pm_A.o") - L.P("d_DC"))], ins=["d.i"]), d_DC=A("d_DC"))
    add("sources:ForceSource", Spec(["pm_A"], [
        ("force out = F", lambda L, x: -L.I("pm_A", x) - delta(x, "F.i")),
        ("force out = F_DC at DC", lambda L, x: L.DC("pm_A.o") / L.z - L.P("F_DC"))], ins=["F.i"]), F_DC=A("F_DC"))
    add("sources:DisplacementSourceBalanced", Spec(["pm_A", "pm_B"], [
        ("d_A - d_B = d", lambda L, x: L.V("pm_A", x) - L.V("pm_B", x) - delta(x, "d.i")),
        ("forces out sum to F", lambda L, x: -L.I("pm_A", x) - L.I("pm_B", x) - delta(x, "F.i")),
        ("d_A - d_B = d_DC at DC", lambda L, x: L.DC("pm_A.o") - L.DC("pm_B.o") - L.P("d_DC")),
        ("forces out sum to F_DC at DC", lambda L, x: (L.DC("pm_A.o") + L.DC("pm_B.o")) / L.z - L.P("F_DC")),
    ], ins=["d.i", "F.i"]), d_DC=A("d_DC"), F_DC=A("F_DC"))
    add("sources:ForceSourceBalanced", Spec(["pm_A", "pm_B"], [
        ("force out of A = F", lambda L, x: -L.I("pm_A", x) - delta(x, "F.i")),
        ("force out of B = F", lambda L, x: -L.I("pm_B", x) - delta(x, "F.i")),
        ("DC force out of A", lambda L, x: L.DC("pm_A.o") - L.P("F_DC") * L.z),
        ("DC force out of B", lambda L, x: L.DC("pm_B.o") - L.P("F_DC") * L.z),
    ], ins=["F.i"]), F_DC=A("F_DC"))
    add("multimeter:DisplacementReadout", voltage_readout("terminal", "terminal_N", "d.o"))
    add("multimeter:ForceReadout", current_readout("terminal", "F.o"))
    add("noise:DisplacementFluctuation", across("p_virt.o", "port.i", "port.o", True))
    add("noise:ForceFluctuation", across("p_virt.o", "portA.o", "portB.o", False))

    def y2(L):
        return I2PIF * L.P("eta")
    conv = Spec(["pm_A", "pm_B"], [
        ("d_A = d_B", lambda L, x: L.V("pm_A", x) - L.V("pm_B", x)),
        ("forces sum to zero", lambda L, x: L.I("pm_A", x) + y2(L) * (L.i("pm_B", x) - L.o("pm_B", x)))])
    conv.tol = True
    add("string:ZConverter", conv, eta=A("mobility_Ns_m"))
    half = lambda L: L.z / num(2)
    drv = Spec([], [
        ("F adds Zm F / 2 to the outgoing wave", lambda L, x: L.S(x, "_port.o") - delta(x, "F.i") * half(L)),
        ("F adds Zm F / 2 to the incoming wave", lambda L, x: L.S(x, "_port.i") - delta(x, "F.i") * half(L)),
        ("F_DC adds Zm F_DC / 2 to the outgoing wave", lambda L, x: L.DC("_port.o") - L.P("F_DC") * half(L)),
        ("F_DC adds Zm F_DC / 2 to the incoming wave", lambda L, x: L.DC("_port.i") - L.P("F_DC") * half(L)),
        ("d reads both waves", lambda L, x: L.S(x, "d.o") - delta(x, "_port.i") - delta(x, "_port.o"))],
        ins=["F.i", "_port.i", "_port.o"], outs=["_port.o", "_port.i", "d.o"])
    # what the present code does instead (known finding)
    drv.alt = ("sends the whole force wave to the outgoing side only", {
        drv.laws[0][0]: lambda L, x: L.S(x, "_port.o") - delta(x, "F.i") * L.z,
        drv.laws[1][0]: lambda L, x: L.S(x, "_port.i"),
        drv.laws[2][0]: lambda L, x: L.DC("_port.o") - L.P("F_DC") * L.z,
        drv.laws[3][0]: lambda L, x: L.DC("_port.i")})
    add("ports_driven:ForceToDisplacementBase", drv, F_DC=A("F_DC"))
    add("xyz:Moment1D", lever1())
    add("xyz:XYZMomentDriver", lever3())
    return t


AXES = "XYZ"


def per_axis(ctx, name, sub, param, port_, attr):
    """a three axis element is one single axis element per axis with that axis' parameter, exposed on that axis of its port"""
    ci = ctx.prog.get_class(P + "xyz", name)
    c = Composite(ctx.prog, ci)
    pt = c.sub(port_)
    for n, ax in enumerate(AXES):
        s = c.sub(ax)
        con = "%s axis %s" % (name, ax)
        if s is None or pt is None:
            undecided(ctx, con)
            continue
        want = {} if param is None else {param: ("item", A(attr or param), C(n))}
        ok = s[0] == P + sub and not s[2] and all(same(c, s[1].get(k), v) for k, v in want.items())
        ctx.check(ok, "composite", con + ": element", ci.module.relpath, "builds %s(%s)" % (s[0], ", ".join("%s=%s" % (k, show(v)) for k, v in s[1].items())))
        ctx.check(pt[1].get(ax) == ("attr", A(ax), "pm_A"), "composite", con + ": port", ci.module.relpath,
                  "port axis %s is %s" % (ax, show(pt[1].get(ax, NONE))))


def same(c, a, b):
    if a is None or b is None:
        return a == b
    try:
        return (c.alg(a) - c.alg(b)).is_zero()
    except NotAlgebraic:
        return a == b


def string(ctx):
    ci = ctx.prog.get_class(P + "string", "String")
    c = Composite(ctx.prog, ci)
    where = ci.module.relpath
    T, rho, ln = (KA(A(n)) for n in ("tension_N", "mass_density_kg_m", "length_m"))
    half = Fraction(1, 2)

    def is_root(t, sq):
        """t is the positive root of sq (all parameters positive)"""
        v = c.alg(t)
        return (v * v - sq).is_zero() and lead(v) > 0
    for z in ("ZconvA", "ZconvB"):
        s = c.sub(z)
        if s is None:
            undecided(ctx, "String " + z)
            continue
        ok = s[0] == P + "string:ZConverter" and "mobility_Ns_m" in s[1] and is_root(s[1]["mobility_Ns_m"], T * rho)
        ctx.check(ok, "composite", "String %s: characteristic mobility sqrt(T rho)" % z, where, "%s %s" % (s[0], [show(v) for v in s[1].values()]))
    s = c.sub("cable")
    if s is None:
        undecided(ctx, "String cable")
    else:
        ctx.check(s[0] == P + "elements:Cable" and "delay_s" in s[1] and is_root(s[1]["delay_s"], ln * ln * rho / T), "composite",
                  "String cable: delay = length / sqrt(T / rho)", where, "delay %s" % show(s[1].get("delay_s", NONE)))
        ctx.check(same(c, s[1].get("Loss"), A("Loss")), "composite", "String cable: loss", where, "loss %s" % show(s[1].get("Loss", NONE)))
    bonds, ends = set(), {}
    for e in c.effects("__build__"):
        m = e.func
        if m[0] == "attr" and m[2] == "bond" and len(e.args) == 1:
            bonds.add(frozenset([m[1], c.it.reify(e.args[0])]))
    for p in ("pm_A", "pm_B"):
        ends[p] = c.it.store.get((SELF, p))
    pt = lambda el, p: ("attr", A(el), p)
    if len(bonds) == 2 and None not in ends.values():
        want = set([frozenset([pt("ZconvA", "pm_B"), pt("cable", "pm_A")]), frozenset([pt("ZconvB", "pm_B"), pt("cable", "pm_B")])])
        want2 = set([frozenset([pt("ZconvA", "pm_B"), pt("cable", "pm_B")]), frozenset([pt("ZconvB", "pm_B"), pt("cable", "pm_A")])])
        ctx.check(bonds in (want, want2), "composite", "String: both converters face the cable with their string side", where,
                  "bonds %s" % sorted(sorted(show(x) for x in b) for b in bonds))
        ctx.check(set(ends.values()) == set([pt("ZconvA", "pm_A"), pt("ZconvB", "pm_A")]), "composite",
                  "String: its ends are the terminals of the converters", where, "ends %s" % sorted(show(v) for v in ends.values()))
    else:
        undecided(ctx, "String bonds")


def KA(t):
    return KAlg(Keys(None, {}))(t)


def guarded(ctx, name, f, *a):
    try:
        f(ctx, *a)
    except (NotAlgebraic, Undecided, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as ex:
        undecided(ctx, "%s: %s %s" % (name, type(ex).__name__, str(ex)[:120]))


def run(ctx):
    guarded(ctx, "String", string)
    for name, sub, param, port_, attr in (("XYZMass", "passive:Mass", "mass_kg", "pm_A", None),
                                          ("XYZTerminatorSpring", "passive:TerminatorSpring", "elasticity_N_m", "pm_A", None),
                                          ("XYZTerminatorDamper", "passive:TerminatorDamper", "resistance_Ns_m", "pm_A", None),
                                          ("XYZTerminatorOpen", "smatrix:TerminatorOpen", None, "pm_A", None),
                                          ("XYZTerminatorShorted", "smatrix:TerminatorShorted", None, "pm_A", None),
                                          ("XYZMoment", "passive:Mass", "mass_kg", "L", "moment_kgmsq")):
        guarded(ctx, name, per_axis, name, sub, param, port_, attr)

    tab = table()
    classes = [ci for ci in element_classes(ctx.prog) if ci.module.name.startswith("phasor.mechanical")]
    covered = set()
    run_table(ctx, tab, ZM, "phasor/mechanical", covered, classes)
    ctx.info["classes_covered"] = sorted(covered)
    ctx.info["classes_not_in_a_law"] = sorted(c.qual for c in classes if c.qual not in covered)
