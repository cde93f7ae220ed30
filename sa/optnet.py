"""Scattering coefficients and three-wave couplings of optical elements.

A law names the coefficients it needs; only those are collected, so the conditions that are
split are the ones the law depends on.  Optical keys are (rest k, frequency k + n*m, side,
polarisation), classical keys are frequencies n*m."""
from fractions import Fraction

from .interp import SELF, NONE
from .portflow import EMPTY, Keys
from .algebra import num, atom
from .coupling import contributions, split, Item, norm_fact, real_cond, KAlg
from .laws import Case, port

R0 = ("rest", "k")
FK = ("F", "k")
FM = ("F", "m")
IWL = atom(("iwl", R0))
HZK = atom(("hz", FK))
HZM = atom(("hz", FM))
M1 = ((FM, Fraction(1)),)
FLIP = {"L": "R", "R": "L", "S": "P", "P": "S"}


def okey(q, n=0, pol=None):
    f = ((FK, Fraction(1)),) + (((FM, Fraction(n)),) if n else ())
    return (R0, f, q, pol)


def ckey(n):
    return (EMPTY, ((FM, Fraction(n)),) if n else (), None, None)


def bases(t):
    """the objects a port is reached through"""
    while t[0] == "attr" and t[1] != SELF:
        yield t
        t = t[1]
    yield t


def P_(x):
    return port(x) if isinstance(x, str) else x


class ONet:
    """wants: tag -> (method, ((port, role, key), ..));  params: name -> term"""

    def __init__(self, flow, wants, params=None, facts=(), m_open=False):
        self.flow = flow
        items = []
        self.K = Keys(flow, {})
        for tag, (method, target) in wants.items():
            items += contributions(flow, method, [(P_(p), r, k) for p, r, k in target], tag)
        for nme, t in (params or {}).items():
            items.append(Item(self.K, (), t, ("P", nme)))
        nn = set(b for _, target in wants.values() for p, _, _ in target for b in bases(P_(p)))
        st = [("not", ("cmp", "==", b, NONE)) for b in nn] + [("not", ("reject", ((FK, Fraction(1)),))), ("not", ("reject", M1))]
        for n in (1, -1):
            st.append(("not", ("reject", okey("L", n)[1])))
        if not m_open:
            st.append(("not", ("DC", M1)))
        self.start = frozenset(norm_fact(x) for x in st) | frozenset(norm_fact(real_cond(self.K, f)) for f in facts)
        self.cases = [OCase(self, fs, s) for fs, s in split(items, self.start)]


class OCase(Case):
    def __init__(self, net, facts, sums):
        self.net, self.facts, self.sums = net, facts, sums

    def __call__(self, tag):
        return self.sums.get(tag, num(0))


def lin(a, b, q, pa=None, pb=None):
    return ("port_coupling_insert", ((a, "from", okey(q, 0, pa)), (b, "to", okey(q, 0, pa if pb is None else pb))))


def mod(a, d, b, q, n, sign):
    """carrier k at a, drive sign*m at d, sideband k + n*m at b"""
    return ("nonlinear_triplet_insert", ((a, "from", okey(q)), (d, "source", ckey(sign)), (b, "to", okey(q, n))))


def beat(a, out, q, n, s, pol=None):
    """field k + n*m on side q times the conjugate side at k -> s*m"""
    return ("port_coupling_insert", ((a, "from", okey(q, n, pol)), (out, "to", ckey(s)), (a, "source", okey(FLIP[q], 0, pol))))
