"""Scattering coefficients of linear elements and physical laws stated on them.

Net(flow, ports_in, ports_out) collects the total coefficient from every wave entering to
every wave leaving at one symbolic key k, split jointly on the conditions that stay open,
and reports any coupling outside that table (other ports, or a key that changes)."""
from fractions import Fraction

from .interp import C, SELF, show, NONE, contains
from .portflow import EMPTY, Keys
from .algebra import R, num, atom, NotAlgebraic, IMAG, I, PI, r_exp, r_subst, divisible
from .coupling import (instances, contributions, split, KAlg, Undecided, Item, norm_fact, real_cond, hermitian_conj)

KF = ((("F", "k"), Fraction(1)),)
KEY = (EMPTY, KF, None, None)
DCKEY = (EMPTY, (), None, None)
FREQ = ("hz", ("F", "k"))
HZ = atom(FREQ)
I2PIF = num(2) * PI * IMAG * HZ


def port(path):
    """'pe_A.i' -> attribute term on self; 'item:...' unsupported"""
    t = SELF
    for p in path.split("."):
        t = ("attr", t, p)
    return t


class Net:
    def __init__(self, flow, ins, outs, key=KEY, params=None, source_key=None, facts=()):
        """params: name -> term (evaluated under the same case split); facts: condition terms assumed"""
        self.flow = flow
        self.facts0 = facts
        self.ins, self.outs = ins, outs
        items = []
        self.K = Keys(flow, {})
        self.pairs = {}
        for a in ins:
            for b in outs:
                items += contributions(flow, "port_coupling_insert",
                                       [(a, "from", key), (b, "to", key)], ("S", a, b))
        if source_key is not None:
            for b in outs:
                items += contributions(flow, "coherent_sources_insert", [(b, "to", source_key)], ("DC", b))
        for nme, t in (params or {}).items():
            items.append(Item(self.K, (), t, ("P", nme)))
        self.cases = [Case(self, fs, s) for fs, s in split(items, self.start())]

    def start(self):
        return frozenset([("not", ("reject", KF))] + [norm_fact(real_cond(self.K, f)) for f in self.facts0])


def linear_atom(q):
    """(atom, constant coefficient, remainder) when q determines a plain atom linearly, else None"""
    for m in sorted(q.n, key=repr):
        if len(m) == 1 and m[0][1] == 1 and m[0][0] != I and m[0][0][0] not in ("exp", "root"):
            a = m[0][0]
            rest = R(dict((k, c) for k, c in q.n.items() if k != m))
            if not mentions(rest, a):
                return a, q.n[m], rest
    return None


def mentions(r, a):
    return any(contains(x, lambda y: y == a) for d in (r.n, r.d) for m in d for x, _ in m)


class Case:
    def __init__(self, net, facts, sums):
        self.net, self.facts, self.sums = net, facts, sums

    def S(self, a, b):
        """coefficient of incoming wave a in outgoing wave b"""
        a, b = (port(x) if isinstance(x, str) else x for x in (a, b))
        return self.sums.get(("S", a, b), num(0))

    def DC(self, b):
        return self.sums.get(("DC", port(b) if isinstance(b, str) else b), num(0))

    def P(self, name):
        return self.sums[("P", name)]

    def zero(self, r):
        """r vanishes under the facts of this case"""
        if isinstance(r, tuple):
            return any(self.zero(x) for x in r)
        if r.is_zero():
            return True
        r = R(r.n)
        qs = []
        for f in self.facts:
            if f[0] == "cmp" and f[1] == "==" and f[2] == C(0) and f[3][0] == "Q":
                q = R(dict(f[3][1][0]))
                qs += [q, R(hermitian_conj(q).n)]
        # eliminate atoms the facts determine linearly, then look for a multiple of a remaining fact
        while qs:
            for i, q in enumerate(qs):
                m0 = linear_atom(q)
                if m0 is not None:
                    break
            else:
                break
            a, c, rest = m0
            v = -rest / num(c)
            del qs[i]
            try:
                qs = [R(x.n) for x in (r_subst(x, {a: v}) for x in qs) if not x.is_zero()]
                r = R(r_subst(r, {a: v}).n)
            except ZeroDivisionError:
                return False
            if r.is_zero():
                return True
        return any(q.n and divisible(r.n, q.n) for q in qs)

    def has(self, cond):
        return norm_fact(real_cond(self.net.K, cond)) in self.facts


def self_attr(name):
    return ("attr", SELF, name)


def method_term(flow, name, args=(FREQ,)):
    """value of self.name(F) as the engine computes it"""
    it = flow.it2
    if name in flow.opaque:
        return ("call", self_attr(name), tuple(args), ())
    r = it.run_method(name, list(args))
    if r is None:
        return None
    return it.reify(r)


def strays(flow, ins, outs):
    """couplings outside the declared table: -> [(inst, why)]"""
    from .portflow import unify
    for x in instances(flow):
        nfs = [m.nf for m in x.members]
        if any(n is None for n in nfs):
            yield x, None
            continue
        if x.method == "coherent_sources_insert":
            continue
        if x.method != "port_coupling_insert" or len(x.members) != 2:
            yield x, "a product coupling in a linear element"
            continue
        a, b = x.members
        if a.nf != b.nf:
            yield x, "changes the frequency key"
            continue
        if a.port not in ins or b.port not in outs:
            yield x, "couples %s to %s" % (show(a.port), show(b.port))
