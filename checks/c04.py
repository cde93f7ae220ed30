"""C04: optical elements act on the light as their textbook laws say."""
from fractions import Fraction

from sa.optnet import ONet, OCase, lin, mod, beat, okey, ckey, IWL, HZK, FLIP, R0
from sa.algebra import num, NotAlgebraic, r_exp, r_pow, r_sqrt, r_cos, r_sin, r_conj, IMAG, PI, new_budget, sym
from sa.coupling import Undecided, instances, Item, KAlg, split, start_facts, norm_fact, real_cond, strip_any
from sa.interp import SELF, NONE, C, show, walk, contains, subst, Interp
from sa.laws import self_attr as A
from sa.portflow import ElementFlow, EMPTY, Keys
from sa.compose import Composite
from sa.loader import AnalysisBroken
from checks.c07 import guarded, same

EXPLANATION = (
    "For every passive optical element, modulator, detector and laser the coefficients between the field components of its ports are computed "
    "from its setup code as algebraic normal forms (conditions split, both signs of the field, both polarisations), and its law is checked as an identity; "
    "any coupling outside the declared table (other ports, other frequency, mixed sides, mixed polarisations) is a violation.")
ASSUMPTIONS = ("transmission, loss and scatter are powers between 0 and 1 that add to at most 1",
               "a port of an element is coupled to the port given by the element's own bookkeeping of its neighbours")

from sa.optnet import P_

O = "phasor.optics."
CL = sym("c_m_s")
HALF = Fraction(1, 2)


def root(x):
    return r_pow(x, HALF)


def V(name):
    return ("attr", A(name), "val")


def phase(q, x):
    """e^{+ix} on the lowering side, its conjugate on the raising side"""
    return r_exp(IMAG * x if q == "L" else -(IMAG * x))


class Rule:
    """name; wants {tag: target}; residual f(case); params"""

    def __init__(self, name, wants, f, facts=(), params=None, m_open=False, alt=None):
        self.name, self.wants, self.f, self.facts, self.params, self.m_open, self.alt = name, wants, f, tuple(facts), dict(params or {}), m_open, alt


def check_rules(ctx, flow, cname, where, rules):
    for r in rules:
        con = "%s: %s" % (cname, r.name)
        new_budget()
        try:
            it = flow.it2
            ps = {}
            for k, t in r.params.items():
                if t[0] == "attr" and t[1] == SELF:
                    t = it.reify(it.get_attr(SELF, t[2]))
                ps[k] = t
            net = ONet(flow, r.wants, ps, r.facts, r.m_open)
            bad = None
            for c in net.cases:
                v = r.f(c)
                if not any(c.zero(x) for x in (v if isinstance(v, tuple) else (v,))):
                    bad = (c, v)
                    if r.alt is not None and c.zero(r.alt[1](c)):
                        con = "%s: %s" % (cname, r.alt[0])
                    break
        except AnalysisBroken:
            raise
        except (NotAlgebraic, Undecided, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, ZeroDivisionError) as ex:
            ctx.undecided("%s: %s %s" % (con, type(ex).__name__, str(ex)[:120]))
            continue
        if bad is None:
            ctx.ok("law", con)
        else:
            ctx.fail("law", con, where, "residual %s" % (repr(bad[1])[:300],))


def two_port(name, amp, states=(None,), params=None, facts=()):
    """through coupling po_Fr <-> po_Bk, amp(case, q, direction); no reflection; polarisation kept"""
    out = []
    for q in "LR":
        for pol in states:
            for a, b in (("po_Fr", "po_Bk"), ("po_Bk", "po_Fr")):
                out.append(Rule("%s, %s to %s%s%s" % (name, a, b, q, pol or ""), {"S": lin(a + ".i", b + ".o", q, pol)},
                                lambda c, q=q, a=a, pol=pol: c("S") - amp(c, q, a, pol), params=params, facts=facts))
    return out


# ---------------------------------------------------------------- mirror
FOUR = [("FrA", "FrB", "BkA", "BkB"), {"FrA": "BkA", "BkA": "FrA", "FrB": "BkB", "BkB": "FrB"},
        {"FrA": "FrB", "FrB": "FrA", "BkA": "BkB", "BkB": "BkA"}]
MP = dict(T=A("T_hr"), Lt=A("L_t"), Lh=A("L_hr"), B=A("R_backscatter"), ph=V("phase_rad"), bs=V("backscatter_phase_rad"), aoi=A("AOI_deg"))


def p(x):
    return "po_" + x


def sel(**kw):
    return dict((k, MP[k]) for k in kw) if False else None


def mirror_rules():
    out = []
    flip = A("flip_sign")

    def sgn(c, side):
        s = 1 if side.startswith("Fr") else -1
        return num(-s if c.has(flip) else s)

    def P(*names):
        return dict((n, MP[n]) for n in names)

    def amp2(c):
        """R, T, L powers"""
        return num(1) - c.P("T") - c.P("Lh") - c.P("B"), c.P("T") - c.P("Lt"), c.P("Lh") + c.P("Lt")

    for q in "LR":
        for a in FOUR[0]:
            t, r = FOUR[1][a], FOUR[2][a]
            out.append(Rule("transmission %s to %s %s" % (a, t, q), {"S": lin(p(a) + ".i", p(t) + ".o", q)},
                            lambda c: c("S") - root(amp2(c)[1]), params=P("T", "Lt", "Lh", "B")))
            # the amplitude's sign depends on the flag: condition on both values
            for fl in (False, True):
                fact = flip if fl else ("not", flip)
                out.append(Rule("reflection %s to %s %s%s" % (a, r, q, " flipped" if fl else ""), {"S": lin(p(a) + ".i", p(r) + ".o", q)},
                                lambda c, a=a, q=q: c("S") - sgn(c, a) * root(amp2(c)[0]) * phase(q, c.P("ph")),
                                params=P("T", "Lt", "Lh", "B", "ph"), facts=[fact]))
            out.append(Rule("backscatter power %s %s" % (a, q), {"S": lin(p(a) + ".i", p(a) + ".o", q)},
                            lambda c, q=q: c("S") * c("S") - c.P("B") * phase(q, c.P("bs")) * phase(q, c.P("bs")), params=P("B", "bs")))
            out.append(Rule("loss input into %s %s" % (a, q), {"S": lin("_L" + a + ".i", p(a) + ".o", q)},
                            lambda c: c("S") - root(amp2(c)[2]), params=P("T", "Lt", "Lh", "B")))
        # lossless, zero phases: unitary
        for i, a in enumerate(FOUR[0]):
            for b in FOUR[0][i:]:
                w = {}
                for x in FOUR[0]:
                    w["a" + x] = lin(p(x) + ".i", p(a) + ".o", q)
                    w["b" + x] = lin(p(x) + ".i", p(b) + ".o", q)
                w["loss"] = lin("_L" + a + ".i", p(a) + ".o", q)
                fs = [("cmp", "==", MP["ph"], C(0)), ("cmp", "==", MP["bs"], C(0)), ("not", flip)]

                def unit(c, a=a, b=b):
                    s = num(0)
                    for x in FOUR[0]:
                        s = s + c("a" + x) * c("b" + x)
                    if a == b:
                        s = s + c("loss") * c("loss") - num(1)
                    return s
                out.append(Rule("energy: outputs %s, %s %s" % (a, b, q), w, unit, facts=fs))
    # displacement: the reflected light gains the phase of the changed path
    for a in FOUR[0]:
        r = FOUR[2][a]
        for q in "LR":
            for n in (1, -1):
                sg = n if q == "L" else -n

                def f(c, a=a, q=q):
                    cosines = [r_cos(c.P("aoi") * PI / num(180))] + [root(num(HALF))]
                    if not c.has(("cmp", "==", A("AOI_deg"), C(45))):
                        cosines = cosines[:1]
                    side = num(1 if a.startswith("Fr") else -1)
                    ph = IMAG if q == "L" else -IMAG
                    return tuple(c("M") + c("S") * ph * num(4) * PI * IWL * x * side for x in cosines)
                out.append(Rule("motion modulates the reflection %s to %s %s%+d" % (a, r, q, n),
                                {"S": lin(p(a) + ".i", p(r) + ".o", q), "M": mod(p(a) + ".i", "Z.d.o", p(r) + ".o", q, n, sg)}, f, params=P("aoi")))
                out.append(Rule("motion modulates the backscatter %s %s%+d" % (a, q, n),
                                {"S": lin(p(a) + ".i", p(a) + ".o", q), "M": mod(p(a) + ".i", "Z.d.o", p(a) + ".o", q, n, sg)}, f, params=P("aoi")))
                def force(c, a=a, amp=1):
                    cosines = [r_cos(c.P("aoi") * PI / num(180))]
                    if c.has(("cmp", "==", A("AOI_deg"), C(45))):
                        cosines.append(root(num(HALF)))
                    return tuple(c("B") - num(2 * (1 if a.startswith("Fr") else -1)) * x / CL * amp for x in cosines)
                out.append(Rule("radiation pressure of %s %s%+d" % (a, q, n),
                                {"B": beat(p(a) + ".i", "Z.F.i", q, n, sg)}, lambda c, f=force: f(c, amp=amp2(c)[0]),
                                params=P("T", "Lt", "Lh", "B", "aoi", "ph"), facts=[("cmp", "==", MP["B"], C(0)), ("not", flip)],
                                alt=("radiation pressure is the reflected amplitude with the opposite sign",
                                     lambda c, f=force, q=q, a=a: f(c, amp=-root(amp2(c)[0]) * num(1 if a.startswith("Fr") else -1) * phase(q, c.P("ph"))))))
                out.append(Rule("motion leaves the transmission %s %s%+d" % (a, q, n),
                                {"M": mod(p(a) + ".i", "Z.d.o", p(FOUR[1][a]) + ".o", q, n, sg)}, lambda c: c("M")))
    return out


def mirror2_rules():
    """normal incidence: one port per side"""
    out = []
    flip = A("flip_sign")
    for q in "LR":
        for a, t in (("Fr", "Bk"), ("Bk", "Fr")):
            out.append(Rule("normal incidence: transmission %s %s" % (a, q), {"S": lin("po_" + a + ".i", "po_" + t + ".o", q)},
                            lambda c: c("S") - root(c.P("T") - c.P("Lt")), params=dict(T=MP["T"], Lt=MP["Lt"], Lh=MP["Lh"], B=MP["B"])))
            for fl in (False, True):
                out.append(Rule("normal incidence: reflection %s %s%s" % (a, q, " flipped" if fl else ""), {"S": lin("po_" + a + ".i", "po_" + a + ".o", q)},
                                lambda c, a=a, q=q, fl=fl: c("S") - num((1 if a == "Fr" else -1) * (-1 if fl else 1))
                                * root(num(1) - c.P("T") - c.P("Lh")) * phase(q, c.P("ph")),
                                params=dict(T=MP["T"], Lt=MP["Lt"], Lh=MP["Lh"], ph=MP["ph"]),
                                facts=[flip if fl else ("not", flip), ("cmp", "==", MP["B"], C(0))]))
            out.append(Rule("normal incidence: loss input %s %s" % (a, q), {"S": lin("_L" + a + ".i", "po_" + a + ".o", q)},
                            lambda c: c("S") - root(c.P("Lt") + c.P("Lh")), params=dict(T=MP["T"], Lt=MP["Lt"], Lh=MP["Lh"])))
            for n in (1, -1):
                sg = n if q == "L" else -n
                out.append(Rule("normal incidence: motion %s %s%+d" % (a, q, n),
                                {"S": lin("po_" + a + ".i", "po_" + a + ".o", q), "M": mod("po_" + a + ".i", "Z.d.o", "po_" + a + ".o", q, n, sg)},
                                lambda c, a=a, q=q: c("M") + c("S") * (IMAG if q == "L" else -IMAG) * num(4) * PI * IWL * num(1 if a == "Fr" else -1),
                                facts=[("cmp", "==", A("AOI_deg"), C(0))]))
    return out


# ---------------------------------------------------------------- propagation, polarisation
FR, BK = "po_Fr", "po_Bk"
EQ0 = lambda t, v: ("cmp", "==", t, C(v))


def space_rules():
    L, D = V("L_m"), V("L_detune_m")
    return two_port("propagation", lambda c, q, a, pol: phase(q, -num(2) * PI * (HZK * c.P("L") / CL + c.P("D") * IWL)), params=dict(L=L, D=D))


ANGLES = {0: (1, 0), 180: (-1, 0), -180: (-1, 0), 90: (0, 1), -270: (0, 1), -90: (0, -1), 270: (0, -1)}


def rotator_rules(reverse):
    out = []
    rot = V("rotate_deg")

    def cs(c):
        for v, x in ANGLES.items():
            if c.has(EQ0(rot, v)):
                return num(x[0]), num(x[1])
        x = c.P("rot") * PI / num(180)
        return r_cos(x), r_sin(x)
    for q in "LR":
        for a, b in ((FR, BK), (BK, FR)):
            for p1 in "SP":
                for p2 in "SP":
                    def f(c, a=a, p1=p1, p2=p2):
                        co, si = cs(c)
                        if p1 == p2:
                            return c("S") - co
                        s = num(1 if p1 == "S" else -1) * num(-1 if reverse and a == BK else 1)
                        return c("S") - s * si
                    out.append(Rule("rotation %s to %s %s%s to %s" % (a, b, q, p1, p2), {"S": lin(a + ".i", b + ".o", q, p1, p2)}, f, params=dict(rot=rot)))
    return out


def plate_rules(values=None):
    out = []
    for q in "LR":
        for a, b in ((FR, BK), (BK, FR)):
            for pol in "SP":
                nm = "cplg" + pol + ("" if q == "L" else "C")
                if values:
                    v = values[pol] if q == "L" else r_conj(values[pol])
                    out.append(Rule("retardation %s to %s %s%s" % (a, b, q, pol), {"S": lin(a + ".i", b + ".o", q, pol)}, lambda c, v=v: c("S") - v))
                else:
                    out.append(Rule("retardation %s to %s %s%s" % (a, b, q, pol), {"S": lin(a + ".i", b + ".o", q, pol)},
                                    lambda c: c("S") - c.P("v"), params=dict(v=A(nm))))
                out.append(Rule("polarisation kept %s to %s %s%s" % (a, b, q, pol), {"S": lin(a + ".i", b + ".o", q, pol, FLIP[pol])}, lambda c: c("S")))
    return out


# ---------------------------------------------------------------- modulators and detectors
def through_rules(value=1, pairs=((FR, BK), (BK, FR))):
    return [Rule("passes the light, %s to %s %s" % (a, b, q), {"S": lin(a + ".i", b + ".o", q)}, lambda c: c("S") - num(value)) for q in "LR" for a, b in pairs]


def modulator_rules(drives):
    out = through_rules()
    for d, cf in drives:
        for q in "LR":
            for a, b in ((FR, BK), (BK, FR)):
                for n in (1, -1):
                    sg = n if q == "L" else -n
                    v = num(HALF) * (num(1) if cf == "AM" else (IMAG if q == "L" else -IMAG))
                    out.append(Rule("%s sideband %s to %s %s%+d" % (cf, a, b, q, n), {"M": mod(a + ".i", d + ".i", b + ".o", q, n, sg)}, lambda c, v=v: c("M") - v))
                    out.append(Rule("%s sideband of the opposite order %s to %s %s%+d" % (cf, a, b, q, n), {"M": mod(a + ".i", d + ".i", b + ".o", q, n, -sg)}, lambda c: c("M")))
    return out


def detector_rules(name="Wpd"):
    out = []
    for q in "LR":
        for n in (1, -1):
            sg = n if q == "L" else -n
            out.append(Rule("beat at the detector %s%+d" % (q, n), {"B": beat(FR + ".i", name + ".o", q, n, sg)}, lambda c: c("B") - num(1)))
            out.append(Rule("beat of the opposite order %s%+d" % (q, n), {"B": beat(FR + ".i", name + ".o", q, n, -sg)}, lambda c: c("B")))
        out.append(Rule("mean power at the detector %s" % q, {"B": beat(FR + ".i", name + ".o", q, 0, 0)}, lambda c: c("B") - num(HALF), m_open=True))
    return out


def selector_rules(port_of):
    out = []
    for q in "LR":
        for pol in "SP":
            for pol2 in "SP":
                v = num(1 if pol == pol2 else 0)
                b = port_of[pol2]
                out.append(Rule("%s%s light to %s" % (q, pol, b), {"S": lin("po_Fr.i", b + ".o", q, pol)}, lambda c, v=v: c("S") - v))
                out.append(Rule("%s%s light from %s" % (q, pol, b), {"S": lin(b + ".i", "po_Fr.o", q, pol)}, lambda c, v=v: c("S") - v))
    return out


# ---------------------------------------------------------------- structure of the couplings
def shape(ctx, flow, cname, where, linear, drives=(), beats=(), rotates=False, flips=False):
    """every coupling of the element joins a declared pair of ports, and changes only what the element's function changes"""
    lp = set((P_(a), P_(b)) for a, b in linear)
    dp = set(P_(d) for d in drives)
    bp = set((P_(a), P_(b)) for a, b in beats)
    n = 0
    bad = {}
    try:
        for x in instances(flow):
            nfs = [m.nf for m in x.members]
            loc = x.e.loc
            if any(k is None for k in nfs):
                ctx.undecided("%s: a key at %s is not readable" % (cname, loc))
                continue
            if x.method == "coherent_sources_insert":
                continue
            n += 1
            if x.method == "nonlinear_triplet_insert" and len(x.members) == 3:
                a, d, b = x.members
                if a.port in dp:
                    a, d = d, a
                if d.port not in dp or (a.port, b.port) not in lp:
                    bad[loc] = "couples %s and %s to %s" % (show(a.port), show(d.port), show(b.port))
                elif a.nf[0] != b.nf[0] or a.nf[2:] != b.nf[2:]:
                    bad[loc] = "a modulation changes the side, polarisation or carrier of the field"
            elif x.method == "port_coupling_insert" and len(x.members) == 3:
                a, b, s = x.members
                if (a.port, b.port) not in bp or s.port != a.port:
                    bad[loc] = "a beat of %s and %s at %s" % (show(a.port), show(s.port), show(b.port))
                elif a.nf[0] != s.nf[0] or a.nf[2] != FLIP[s.nf[2]] or a.nf[3] != s.nf[3]:
                    bad[loc] = "a beat of fields of different carrier or polarisation, or of the same side"
            elif x.method == "port_coupling_insert" and len(x.members) == 2:
                a, b = x.members
                if (a.port, b.port) not in lp:
                    bad[loc] = "couples %s to %s" % (show(a.port), show(b.port))
                elif a.nf[0] != b.nf[0]:
                    bad[loc] = "changes the carrier"
                elif a.nf[2] != b.nf[2]:
                    if not flips:
                        bad[loc] = "mixes the field with its conjugate"
                elif a.nf[1] != b.nf[1]:
                    bad[loc] = "changes the frequency of the light"
                elif a.nf[3] != b.nf[3] and not rotates:
                    bad[loc] = "changes the polarisation"
    except AnalysisBroken:
        raise
    except Exception as ex:
        ctx.undecided("%s structure: %s %s" % (cname, type(ex).__name__, str(ex)[:100]))
        return
    con = "%s couples only its declared ports and keys" % cname
    if bad:
        for loc, why in sorted(bad.items()):
            ctx.fail("structure", con, loc, why)
    elif n:
        ctx.ok("structure", con)


LOWT, RAIT = ("global", "phasor.optics.ports:LOWER"), ("global", "phasor.optics.ports:RAISE")


def item_cases(items, facts=()):
    """joint case split of bare values; conditions come out as OCase-like objects"""
    class N:
        pass
    net = N()
    net.K = items[0].K
    return [OCase(net, fs, sums) for fs, sums in split(items, [norm_fact(real_cond(net.K, f)) for f in facts])]


def judge(ctx, con, where, cases, f):
    for c in cases:
        v = f(c)
        if not c.zero(v):
            ctx.fail("law", con, where, "residual %s" % (repr(v)[:300],))
            return
    ctx.ok("law", con)


def laser(ctx, flow, where):
    """the laser emits sqrt(power) e^{i phase} and its conjugate at its own carrier and polarisation"""
    K = Keys(flow, {})
    sides = {"L": [], "R": []}
    for e in flow.inserts:
        if e.func[2] != "coherent_sources_insert":
            continue
        members, val, mem, guards = flow.insert_parts(e)
        k = members[0].key
        low, rai = (any(q == t for q in walk(k)) for t in (LOWT, RAIT))
        if low == rai or members[0].port != P_("po_Fr.o"):
            raise Undecided("laser source key " + show(k)[:80])
        sides["L" if low else "R"].append((k, Item(K, guards, val, "L" if low else "R")))
    if not sides["L"] or not sides["R"]:
        ctx.fail("law", "Laser drives both sides of the field", where, "a source for only one side")
        return
    keys = set(subst(k, {RAIT: LOWT}) for q in "LR" for k, _ in sides[q])
    ctx.check(len(keys) == 1, "law", "Laser drives the two sides of one key", where, "keys %s" % [show(k)[:80] for k in keys])
    k = next(iter(keys))
    if len(keys) == 1:
        named = [q for q in walk(k) if q in (A("fkey"), A("polk"))]
        if len(named) >= 2:
            ctx.ok("law", "Laser emits at its carrier and polarisation")
    it = flow.it2
    ps = [Item(K, (), V("power_W"), ("P", "W")), Item(K, (), V("phase_rad"), ("P", "ph"))]
    cs = item_cases([x for q in "LR" for _, x in sides[q]] + ps)
    for q in "LR":
        judge(ctx, "Laser: field on side %s is the root of the power with the phase" % q, where, cs,
              lambda c, q=q: c(q) - root(c.P("W")) * phase(q, c.P("ph")))


def squeezer(ctx, flow, prog, ci, where):
    name = "EZSqz"
    loss, g1, g2, phi = A("used_loss"), A("used_nonlinear_field_gain_1"), A("used_nonlinear_field_gain_2"), A("phi_sqz_deg")
    lf = {"po_Fr": "_LFr", "po_Bk": "_LBk"}
    want = {}
    for a, b in BOTH:
        want[(P_(a + ".i"), P_(b + ".o"))] = "signal"
        want[(P_(a + ".i"), P_(lf[a] + ".o"))] = "loss"
        want[(P_(lf[a] + ".i"), P_(a + ".o"))] = "loss"
        want[(P_(lf[a] + ".i"), P_(lf[a] + ".o"))] = "stay"
    seen = {}
    for x in instances(flow):
        nfs = [m.nf for m in x.members]
        if any(n is None for n in nfs) or len(x.members) != 2:
            raise Undecided("squeezer key at " + x.e.loc)
        a, b = x.members
        what = want.get((a.port, b.port))
        if what is None:
            ctx.fail("structure", "%s couples only its declared ports and keys" % name, x.e.loc, "couples %s to %s" % (show(a.port), show(b.port)))
            continue
        flipped = a.nf[2] != b.nf[2]
        q = a.nf[2]
        tag = (a.port, b.port, q, flipped)
        con = "%s: %s %s to %s%s%s" % (name, what, show(a.port), show(b.port), q, " conjugate" if flipped else "")
        if not flipped:
            ctx.check(a.nf == b.nf, "law", con + " keeps the key", x.e.loc, "the key changes")
        else:
            # the sideband reflected about the squeezed carrier
            d = dict(a.nf[1])
            for t, v in b.nf[1]:
                d[t] = d.get(t, 0) + v
            cen = dict((t, v) for t, v in d.items() if v)
            okc = what == "signal" and a.nf[0] == b.nf[0] and a.nf[3] == b.nf[3] and len(cen) == 1 and list(cen.values())[0] == 2 and all(
                contains(t, lambda y: y == A("Fkey_QC_center")) for t in cen)
            ctx.check(okc, "law", con + " reflects the sideband about the squeezed carrier", x.e.loc, "from %s to %s" % (str(a.nf[1])[:80], str(b.nf[1])[:80]))
        items = [Item(x.K, x.guards, x.val, "S")] + [Item(x.K, (), t, ("P", n)) for n, t in (("loss", loss), ("g1", g1), ("g2", g2), ("phi", phi))]
        net = type("N", (), {})()
        net.K = x.K
        cs = [OCase(net, fs, sums) for fs, sums in split(items, start_facts(x))]

        def f(c, what=what, q=q, flipped=flipped):
            t = root(num(1) - c.P("loss"))
            if what == "signal":
                v = c.P("g2") * phase(q, -num(4) * PI * c.P("phi") / num(360)) if flipped else c.P("g1")
                return c("S") - v * t
            return c("S") - (root(c.P("loss")) if what == "loss" else t)
        judge(ctx, con, x.e.loc, cs, f)
        seen[tag] = seen.get(tag, 0) + 1
    for (a, b), what in want.items():
        for q in "LR":
            for flipped in ((False, True) if what == "signal" else (False,)):
                n = seen.get((a, b, q, flipped), 0)
                ctx.check(n == 1, "law", "%s: one %s coupling %s to %s %s%s" % (name, what, show(a), show(b), q, " conjugate" if flipped else ""), where, "%d couplings" % n)


def squeezer_gains(ctx, prog, ci, where):
    """the two gains are a Bogoliubov pair: their squares differ by one, whatever the parameters were"""
    from sa.interp import Interp
    it = Interp(prog, ci)
    f = it.method("__init__")
    it.call_func(f, [("param", a.arg) for a in it.funcs[f[1]].node.args.args[1:]], [], None)
    v = dict((k[1], t) for k, t in it.store.items() if k[0] == SELF)
    K = Keys(None, {})
    a, b = (it.reify(v["used_nonlinear_field_gain_%d" % i]) for i in (1, 2))
    cs = item_cases([Item(K, (), a, "a"), Item(K, (), b, "b")])
    judge(ctx, "EZSqz: the squares of the two field gains differ by one", where, cs, lambda c: c("a") * c("a") - c("b") * c("b") - num(1))


def circulator(ctx, flow, where):
    n = 0
    for x in instances(flow):
        if len(x.members) != 2 or any(m.nf is None for m in x.members):
            raise Undecided("circulator key at " + x.e.loc)
        a, b = x.members
        lst = A("port_list")
        for N in (2, 3, 4, 5):
            for i in range(N):
                ia, ib = (position(m.port, lst, i, N) for m in (a, b))
                if ia is None or ib is None:
                    raise Undecided("circulator port " + show(b.port)[:80])
                n += 1
                ctx.check(ib[0] == (ia[0] + 1) % N and ia[1] == "i" and ib[1] == "o", "law",
                          "OpticalCirculator: light goes on to the next port", x.e.loc, "port %d of %d to port %d" % (ia[0], N, ib[0]))
        ctx.check(a.nf == b.nf and KAlg(x.K)(x.val).const() == 1, "law", "OpticalCirculator: the light is unchanged", x.e.loc, "value %s" % show(x.val)[:80])
    if not n:
        raise Undecided("circulator has no coupling")


def position(p, lst, i, N):
    if p[0] != "attr":
        return None
    side, o = p[2], p[1]
    if o[0] == "elem" and o[1] == lst:
        return i, side
    if o[0] == "item" and o[1] == lst:
        v = integer(o[2], lst, i, N)
        return None if v is None or not -N <= v < N else (v % N, side)
    return None


def integer(t, lst, i, N):
    if t[0] == "const" and isinstance(t[1], int):
        return t[1]
    if t[0] == "idx" and t[1] == lst:
        return i
    if t == A("N_ports") or (t[0] == "call" and t[1] == ("global", "builtins.len") and t[2] == (lst,)):
        return N
    if t[0] == "bin":
        a, b = integer(t[2], lst, i, N), integer(t[3], lst, i, N)
        if a is None or b is None or (t[1] in "%/" and b == 0):
            return None
        return {"+": a + b, "-": a - b, "*": a * b, "%": a % b if b else None}.get(t[1])
    if t[0] == "un" and t[1] == "-":
        a = integer(t[2], lst, i, N)
        return None if a is None else -a
    return None


def selector(ctx, flow, where):
    """the generic selector passes a field between its front and the port whose key selects it, and nothing else"""
    fr = {"i": P_("po_Fr.i"), "o": P_("po_Fr.o")}
    for x in instances(flow):
        if len(x.members) != 2 or any(m.nf is None for m in x.members):
            raise Undecided("selector key at " + x.e.loc)
        a, b = x.members
        o = b if a.port == fr["i"] else a
        con = "GenericSelector: %s" % ("front to selected port" if o is b else "selected port to front")
        ent = o.port[1]
        if ent[0] != "item" or ent[2] != C(0) or ent[1][0] != "item" or ent[1][1] != A("port_map") or (o is a and b.port != fr["o"]):
            raise Undecided("selector port " + show(o.port)[:80])
        ctx.check(a.nf == b.nf and KAlg(x.K)(x.val).const() == 1, "law", con + " unchanged", x.e.loc, "value %s" % show(x.val)[:80])
        sel = ("item", ent[1], C(1))
        held = [g for g in x.guards if contains(g, lambda y: y == sel)]
        ctx.check(any(strip_any(g)[0] != "not" for g in held), "law", con + " only when its key selects the field", x.e.loc, "no test of the selecting key")


def plate_values(ctx, prog, name, S, P_val, where):
    """retardation of a wave plate class, from what its constructor stores"""
    ci = prog.get_class(O + "polarization", name)
    it = Interp(prog, ci)
    it.run_method("__init__", [])
    v = {}
    for (o, n), t in it.store.items():
        if o == SELF or (o[0] == "new" and o[1].endswith(":OOABridge") and o[2][:1] == (SELF,)):
            v[n] = it.reify(t)
    K = Keys(None, {})
    for n, w in (("cplgS", S), ("cplgP", P_val)):
        if n not in v:
            raise Undecided("%s.%s not stored by the constructor" % (name, n))
        judge(ctx, "%s: %s" % (name, n), where, item_cases([Item(K, (), v[n], "v")]), lambda c, w=w: c("v") - w)
        t = v.get(n + "C")
        if t is None:
            raise Undecided("%s.%sC not stored by the constructor" % (name, n))
        if t == ("call", ("attr", A(n), "conjugate"), (), ()) or t == ("call", ("global", "numpy.conjugate"), (A(n),), ()):
            ctx.ok("law", "%s: %sC" % (name, n))
        else:
            judge(ctx, "%s: %sC" % (name, n), where, item_cases([Item(K, (), t, "v")]), lambda c, w=w: c("v") - r_conj(w))


def plate_mount(ctx, prog, where):
    """a mounted plate is the plate between a rotation by its angle and the rotation back"""
    for name, plate in (("WavePlateMount", None), ("HalfWavePlate", "UnmountedHalfWavePlate"), ("QuarterWavePlate", "UnmountedQuarterWavePlate")):
        ci = prog.get_class(O + "polarization", name)
        it = Interp(prog, ci)
        it.run_method("__init__", [])
        st = dict((k[1], it.reify(t)) for k, t in it.store.items() if k[0] == SELF)
        bonds = {}
        for e in it.effects:
            if e.func[0] == "attr" and e.func[2] == "bond" and len(e.args) == 2:
                bonds[e.args[0]] = e.args[1]
                bonds[e.args[1]] = e.args[0]
        ends = []
        other = {"po_Fr": "po_Bk", "po_Bk": "po_Fr"}

        def resolve(t):
            return subst(t, dict((A(n), v) for n, v in st.items() if v[0] == "new"))
        bonds = dict((resolve(a), resolve(b)) for a, b in bonds.items())
        for end in ("po_Fr", "po_Bk"):
            t = st.get(end)
            inner = dict(t[3]).get("inner_port") if t is not None and t[0] == "new" else None
            if inner is None:
                raise Undecided("%s.%s" % (name, end))
            inner = resolve(inner)
            rot = inner[1]
            if inner[0] != "attr" or inner[2] not in other or rot[0] != "new" or not rot[1].endswith(":PolarizationRotator"):
                raise Undecided("%s.%s is %s" % (name, end, show(inner)[:80]))
            ang = dict(rot[3]).get("rotate", dict(rot[3]).get("rotate_deg"))
            if ang is None:
                raise Undecided("%s rotation angle" % name)
            far = bonds.get(("attr", rot, other[inner[2]]))
            # light entering at this end turns by +angle through po_Fr, by -angle through po_Bk
            s = KAlg(Keys(None, {}))(ang) * num(1 if inner[2] == "po_Fr" else -1)
            ends.append((far, s))
        unit = sym_of(A("rotate"))
        con = "%s turns the polarisation by its angle into the plate from both ends" % name
        ok = all(s == unit for _, s in ends)
        ctx.check(ok, "law", con, where, "angles %s" % [repr(s) for _, s in ends])
        con = "%s has the plate between its rotators" % name
        ctx.check(sorted(repr(f) for f, _ in ends) == sorted(repr(("attr", A("plate"), n)) for n in other), "law", con, where, "bonded to %s" % [show(f) if f else None for f, _ in ends])
        if plate:
            made = set(e.func[1].rsplit(":", 1)[1] for e in it.effects if e.kind == "new" and e.func[0] == "class" and "WavePlate" in e.func[1])
            if made:
                ctx.check(made == {plate}, "law", "%s holds a %s" % (name, plate), where, "builds %s" % sorted(made))


def sym_of(t):
    return KAlg(Keys(None, {}))(t)


def io(*pairs):
    return [(a + ".i", b + ".o") for a, b in pairs]


BOTH = ((FR, BK), (BK, FR))


def run(ctx):
    prog = ctx.prog

    def one(mod_, name, rules, alias=None, tag="", **sh):
        where = "phasor/optics/%s.py" % mod_
        try:
            ci = prog.get_class(O + mod_, name)
        except AnalysisBroken:
            ctx.undecided("%s.%s not found" % (mod_, name))
            return None
        try:
            flow = ElementFlow(prog, ci, alias=alias, expand="full")
        except AnalysisBroken:
            raise
        except Exception as ex:
            ctx.undecided("%s: %s %s" % (name, type(ex).__name__, str(ex)[:120]))
            return None
        check_rules(ctx, flow, name + tag, where, rules)
        if sh:
            shape(ctx, flow, name + tag, where, **sh)
        return flow

    four = [(a + ".i", b + ".o") for x in FOUR[0] for a, b in (("po_" + x, "po_" + FOUR[1][x]), ("po_" + x, "po_" + FOUR[2][x]), ("po_" + x, "po_" + x),
                                                              ("_L" + x, "po_" + x), ("po_" + x, "_L" + x), ("_L" + x, "_L" + x))]
    one("mirror", "Mirror", mirror_rules(), linear=four, drives=["Z.d.o"], beats=[("po_" + x + ".i", "Z.F.i") for x in FOUR[0]])
    one("mirror", "Mirror", mirror2_rules(), tag=" (2 port)",
        alias={"po_FrA": "po_Fr", "po_FrB": "po_Fr", "po_BkA": "po_Bk", "po_BkB": "po_Bk", "_LFrA": "_LFr", "_LFrB": "_LFr", "_LBkA": "_LBk", "_LBkB": "_LBk"})
    one("space", "Space", space_rules(), linear=io(*BOTH))
    for nme, rev in (("BaseRotator", True), ("PolarizationRotator", True), ("FaradayRotator", False)):
        one("polarization", nme, rotator_rules(rev), linear=io(*BOTH), rotates=True)
    one("polarization", "WavePlate", plate_rules(), linear=io(*BOTH))
    one("modulators", "PM", modulator_rules([("Drv", "PM")]), linear=io(*BOTH), drives=["Drv.i"], beats=[(FR + ".i", "BA.o"), (BK + ".i", "BA.o")])
    one("modulators", "AM", modulator_rules([("Drv", "AM")]), linear=io(*BOTH), drives=["Drv.i"], beats=[(FR + ".i", "BA.o"), (BK + ".i", "BA.o")])
    one("modulators", "AMPM", modulator_rules([("DrvAM", "AM"), ("DrvPM", "PM")]), linear=io(*BOTH), drives=["DrvAM.i", "DrvPM.i"])
    one("photodiode", "PD", detector_rules(), linear=[], beats=[(FR + ".i", "Wpd.o")])
    one("photodiode", "MagicPD", detector_rules() + through_rules(), linear=io(*BOTH), beats=[(FR + ".i", "Wpd.o")])
    one("selectors", "PolSelector", selector_rules({"S": "Bk_S", "P": "Bk_P"}), linear=io((FR, "Bk_S"), (FR, "Bk_P"), ("Bk_S", FR), ("Bk_P", FR)))
    one("hidden_variable_homodyne", "HiddenVariableHomodynePD", through_rules())

    P = "phasor/optics/"

    def part(name, mod_, f, cls=None, flow=True):
        try:
            ci = prog.get_class(O + mod_, cls or name)
            fl = ElementFlow(prog, ci, expand="full") if flow else None
            new_budget()
            f(ci, fl)
        except AnalysisBroken as ex:
            ctx.undecided("%s: %s" % (name, str(ex)[:120]))
        except (NotAlgebraic, Undecided, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, ZeroDivisionError) as ex:
            ctx.undecided("%s: %s %s" % (name, type(ex).__name__, str(ex)[:120]))
    part("Laser", "laser", lambda ci, fl: laser(ctx, fl, P + "laser.py"))
    part("EZSqz", "EZSqz", lambda ci, fl: squeezer(ctx, fl, prog, ci, P + "EZSqz.py"))
    part("EZSqz gains", "EZSqz", lambda ci, fl: squeezer_gains(ctx, prog, ci, P + "EZSqz.py"), cls="EZSqz", flow=False)
    part("OpticalCirculator", "circulator", lambda ci, fl: circulator(ctx, fl, P + "circulator.py"))
    part("GenericSelector", "selectors", lambda ci, fl: selector(ctx, fl, P + "selectors.py"))
    for n, v in (("UnmountedQuarterWavePlate", IMAG), ("UnmountedHalfWavePlate", num(-1))):
        part(n, "polarization", lambda ci, fl, n=n, v=v: plate_values(ctx, prog, n, num(1), v, P + "polarization.py"), flow=False)
    part("WavePlateMount", "polarization", lambda ci, fl: plate_mount(ctx, prog, P + "polarization.py"), flow=False)
    ctx.floor("law", 150)
