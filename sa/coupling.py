"""Total coupling coefficients between port keys, as algebraic normal forms.

An Inst is one insert effect of an element under one case of its optical keys
(lowering / raising, polarisation).  total() sums everything an element inserts
between given port keys, whatever effects, loops or branches it comes from, split
on the conditions that remain open."""
import ast
import itertools
from fractions import Fraction

from .interp import C, NONE, walk, contains, neg, mk_and, mk_or, subst, show, SELF
from .portflow import ElementFlow, Keys, Member, memberships, unify, strip, lin_scale, is_member, F_KEY, EMPTY
from .algebra import (R, num, atom, sym, Alg, NotAlgebraic, r_subst, r_conj, equalities, strip_any, first_choice, IMAG, lits,
                      freeze)


class Undecided(Exception):
    pass


class Inst:
    __slots__ = ("flow", "e", "cases", "K", "members", "val", "mem", "guards", "opt")

    def sig(self):
        return [(m.port, m.role, m.nf) for m in self.members]

    @property
    def method(self):
        return self.e.func[2]


def effect_optical(flow, members, mem):
    opt = {}
    for kind, port, elem in mem:
        opt[elem] = flow.is_optical(port)
    return opt


def instances(flow, effects=None):
    """Inst for every effect and feasible case; unreadable keys give nf None."""
    for e in (flow.inserts if effects is None else effects):
        members, val, mem, guards = flow.insert_parts(e)
        opt = effect_optical(flow, members, mem)
        keyvars = [k for k in opt if opt[k]]
        for cases in itertools.product([(q, p) for q in "LR" for p in ("PS" if flow.polar else (None,))], repeat=len(keyvars)):
            K = Keys(flow, dict(zip(keyvars, cases)))
            K.optical = opt
            K.nonnull = set(m.port for m in members) | set(p for _, p, _ in mem)
            feas = True
            for _ in range(2):
                for g in guards:
                    c = K.canon(g)
                    if K.known(c) is False:
                        feas = False
                        break
                    K.assume(c)
            if not feas:
                continue
            x = Inst()
            x.flow, x.e, x.cases, x.K, x.val, x.mem, x.guards, x.opt = flow, e, cases, K, val, mem, guards, opt
            x.members = []
            for m in members:
                n = Member(m.port, m.key, m.role)
                n.nf = K.key(m.key)
                x.members.append(n)
                if n.nf is not None and n.nf[1] is not None and n.nf[1]:
                    # an inserted key is an existing key: its order was not rejected
                    K.facts.add(("not", ("reject", n.nf[1])))
                    K.facts.add(("not", ("reject", lin_scale(n.nf[1], -1))))
            yield x


def hz(lin):
    out = num(0)
    for a, c in lin:
        out = out + num(c) * (atom(("hz", a)))
    return out


def instance_names(prog, ci, cache={}):
    """members of the class plus attributes its methods store"""
    k = (id(prog), ci.qual)
    if k not in cache:
        out = set()
        for c in prog.mro(ci):
            out |= set(c.members)
            for m in c.members.values():
                if isinstance(m, ast.AST):
                    for x in ast.walk(m):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            out.add(x.attr)
        cache[k] = out
    return cache[k]


# attributes documented to hold complex gains
COMPLEX = ("harmonic_gains",)


class KAlg(Alg):
    """Values of one element under the key environment of K."""

    vectors = {"displacementXYZ": 3, "driveXYZ": 3}

    def __init__(self, K):
        Alg.__init__(self, self._leaf)
        self.K = K

    def _leaf(self, t):
        k = t[0]
        if k == "item" and t[1][0] == "call" and t[1][1][0] == "attr" and t[1][1][2] == "optical_frequency_extract" and t[2][0] == "const":
            key = self.K.key(t[1][2][0])
            if key is None:
                raise NotAlgebraic("key of " + show(t)[:80])
            if t[2][1] == 0:
                return atom(("iwl", key[0]))
            return hz(key[1] if key[1] is not None else ())
        if k == "call" and t[1][0] == "attr" and t[1][2] == "classical_frequency_extract" and len(t[2]) == 1:
            key = self.K.key(t[2][0])
            if key is None or key[1] is None:
                raise NotAlgebraic("key of " + show(t)[:80])
            return hz(key[1])
        if k == "call" and t[1][0] == "attr" and t[1][2] == "classical_frequency_extract_center" and len(t[2]) == 1:
            f = self.K.freq(t[2][0])
            if f is None:
                raise NotAlgebraic("frequency of " + show(t)[:80])
            out = num(0)
            for a, c in f:
                out = out + num(c) * atom(("hzc", a))
            return out
        if k == "call" and t[1] == ("global", "numpy.sign") and len(t[2]) == 1:
            return sign_of(self(t[2][0]))
        if k == "attr" and t[1] == SELF:
            return self.companion(t)
        if k == "item" and t[1][0] == "attr" and t[1][1] == SELF and (t[1][2] in COMPLEX):
            return ("cx", t)
        return None

    def companion(self, t):
        """X / XC attribute pairs: XC is the conjugate of X (its default is checked separately)"""
        flow = self.K.flow
        if flow is None:
            return None
        names = instance_names(flow.prog, flow.ci)
        if t[2].endswith("C") and t[2] in names and t[2][:-1] in names:
            return ("conj", ("cx", ("attr", SELF, t[2][:-1])))
        if t[2] + "C" in names and t[2] in names:
            return ("cx", t)
        return None

    def real(self, a):
        return a[0] != "cx"


def lead(x):
    return freeze(x.n)[0][1]


def unit(q):
    k = lead(q)
    return q if k == 1 else q * num(1 / k)


def sign_of(x):
    c = x.const()
    if c is not None:
        return num((c > 0) - (c < 0))
    if lead(x) < 0:
        return -atom(("sign",) + (-x).frozen())
    return atom(("sign",) + x.frozen())


def real_cond(K, c):
    """Canonical form of a condition under K, with numeric comparisons reduced to sign tests."""
    c = strip_any(c)
    k = c[0]
    if k == "and":
        return mk_and([real_cond(K, x) for x in c[1]])
    if k == "or":
        return mk_or([real_cond(K, x) for x in c[1]])
    if k == "not":
        return neg(real_cond(K, c[1]))
    if k == "cmp" and c[1] in ("<", "<=", "=="):
        if NONE not in c[2:] and not any(x[0] in ("const",) and isinstance(x[1], str) for x in c[2:]):
            # keys, ports, strings compare structurally; numbers by their difference
            cc = K.canon(c)
            if cc[0] in ("const", "DC"):
                return cc
            if not (cc[0] == "cmp" and len(cc) == 4 and (cc[2][0] in ("FQ", "NF") or cc[3][0] in ("FQ", "NF"))):
                try:
                    alg = KAlg(K)
                    d = alg(c[2]) - alg(c[3])
                except (NotAlgebraic, RecursionError):
                    return cc
                v = d.const()
                if v is not None:
                    return C({"<": v < 0, "<=": v <= 0, "==": v == 0}[c[1]])
                if c[1] == "==":
                    # Q == 0 exactly when its numerator vanishes, and exactly when conj Q does
                    a, b = unit(R(d.n)), unit(R(hermitian_conj(d).n))
                    q = min(a.frozen(), b.frozen(), key=repr)
                    return ("cmp", "==", C(0), ("Q", q))
                if len(d.d) == 1:
                    op = c[1]
                    s = lead(d)
                    q = d if s > 0 else -d
                    q = q * num(1 / lead(q)) if lead(q) != 1 else q
                    q = ("Q", q.frozen())
                    return ("cmp", op, q, C(0)) if s > 0 else ("cmp", op, C(0), q)
            return cc
    return K.canon(c)


def norm_fact(c):
    """reject / DC tests do not depend on the sign of the frequency"""
    if not isinstance(c, tuple) or not c or c[0] == "const":
        return c
    if c[0] in ("reject", "DC", "maxcut") and c[1] and isinstance(c[1][0][1], Fraction) and c[1][0][1] < 0:
        return (c[0], lin_scale(c[1], -1)) + c[2:]
    if c[0] in ("and", "or"):
        return (mk_and if c[0] == "and" else mk_or)([norm_fact(x) for x in c[1]])
    if c[0] == "not":
        return neg(norm_fact(c[1]))
    return c


def base_atoms(c, out):
    if c[0] in ("and", "or"):
        for x in c[1]:
            base_atoms(x, out)
    elif c[0] == "not":
        base_atoms(c[1], out)
    elif c[0] == "cmp" and c[1] in ("<", "<=") and C(0) in c[2:]:
        q = c[3] if c[2] == C(0) else c[2]
        for x in (("cmp", "==", C(0), q), ("cmp", "<", C(0), q)):
            if x not in out:
                out.append(x)
    elif c[0] != "const" and c not in out:
        out.append(c)


def expand_tables(t):
    """{k1: v1, ..}[x] with literal keys and an open x -> a choice between the entries"""
    if not isinstance(t, tuple) or not t or t[0] == "const":
        return t
    t = tuple(expand_tables(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == "item" and t[1][0] == "dict" and t[2][0] != "const" and t[1][1] and all(k[0] == "const" for k, v in t[1][1]):
        out = ("missing",)
        for k, v in reversed(t[1][1]):
            out = ("ite", ("cmp", "==", t[2], k), v, out)
        return out
    return t


class Item:
    """guards and value of one contribution, evaluated under its own key environment"""
    __slots__ = ("K", "guards", "val", "tag")

    def __init__(self, K, guards, val, tag):
        # "only when the value is not 0" makes no difference to the sum
        nz = ("not", ("cmp", "==", C(0), val))
        guards = [g for g in guards if strip_any(g) != nz]
        self.K, self.guards, self.val, self.tag = K, guards, val if val is None else expand_tables(val), tag


def choose_val(K, t, decide):
    """resolve the choices in a value; returns (term, None) or (None, open condition)"""
    while True:
        c = first_choice(t)
        if c is None:
            return t, None
        cc = norm_fact(real_cond(K, c))
        v = decide(cc)
        if v is None:
            return None, cc
        from .algebra import choose
        t = choose(t, c, v)


def split(items, facts, limit=256):
    """-> list of (facts, {tag: R}); items whose guards fail drop out"""
    out = []
    todo = [frozenset(norm_fact(f) for f in facts)]
    D = Keys(None, {})
    while todo:
        fs = todo.pop()
        D.facts = set(fs)

        def decide(c):
            return D.known(c)
        open_ = None
        tot = {}
        for it in items:
            live = True
            for g in it.guards:
                cc = norm_fact(real_cond(it.K, g))
                v = decide(cc)
                if v is False:
                    live = False
                    break
                if v is None:
                    open_ = cc
                    break
            if open_ is not None:
                if contains(open_, lambda q: bool(q) and q[0] == "phi_out"):
                    raise Undecided("condition computed by a loop: %s" % (repr(open_)[:120],))
                break
            if not live:
                continue
            if it.val is None:
                tot.setdefault(it.tag, []).append(None)
                continue
            v, oc = choose_val(it.K, it.val, decide)
            if oc is not None:
                open_ = oc
                break
            tot.setdefault(it.tag, []).append((it.K, v))
        if open_ is not None:
            at = []
            base_atoms(open_, at)
            a = next((x for x in at if D.known(x) is None), None)
            if a is None:
                raise Undecided("cannot split on %r" % (open_,))
            for f in (a, neg(a)):
                todo.append(fs | {f})
            if len(todo) + len(out) > limit:
                raise Undecided("too many cases")
            continue
        sums = {}
        for tag, vs in tot.items():
            s = num(0)
            for v in vs:
                if v is None:
                    continue
                K, t = v
                s = s + KAlg(K)(t)
            sums[tag] = s
        mp = solve_eqs(fs)
        if mp:
            sums = dict((k, r_subst(v, mp)) for k, v in sums.items())
        out.append((fs, sums))
    return out


def solve_eqs(fs):
    """atom -> value from the facts Q == 0 that fix one atom linearly; DC frequencies vanish"""
    mp = {}
    for f in fs:
        if f[0] == "cmp" and f[1] == "==" and f[2] == C(0) and f[3][0] == "Q":
            n, d = f[3][1]
            q = R(dict(n), dict(d))
            lin = [m for m in q.n if m != ()]
            if len(lin) == 1 and len(lin[0]) == 1 and lin[0][0][1] > 0 and lin[0][0][0][0] != "i":
                a, ex = lin[0][0]
                k = -q.n.get((), Fraction(0)) / q.n[lin[0]]
                if ex == 1 or k == 0:
                    mp[a] = num(k)
                    if a[0] == "hz" or a[0] == "hzc":
                        mp[a] = num(k)
            elif lin and all(len(m) == 1 and m[0][1] == 1 for m in lin) and len(q.d) == 1:
                m0 = sorted(lin, key=repr)[-1]
                a = m0[0][0]
                if a not in mp and a[0] != "i":
                    rest = R(dict((m, c) for m, c in q.n.items() if m != m0))
                    mp[a] = -rest / num(q.n[m0])
        if f[0] == "DC" and len(f[1]) == 1:
            mp[("hz", f[1][0][0])] = num(0)
            mp[("hzc", f[1][0][0])] = num(0)
    return mp


def start_facts(x):
    """what an instance assumes: its guards"""
    out = set()
    for g in x.guards:
        for c in lits(norm_fact(real_cond(x.K, g))):
            if c[0] != "const":
                out.add(c)
    for f in x.K.facts:
        if f[0] == "not" and f[1][0] == "reject" or f[0] == "reject":
            out.add(norm_fact(f))
    return out


# ------------------------------------------------------------------ matching
def flipq(q):
    return {"L": "R", "R": "L"}.get(q, q)


def conj_nf(nf, optical):
    """key of the conjugate field: raising <-> lowering; classical frequencies change sign"""
    rest, f, q, pol = nf
    if optical or q:
        return (rest, f, flipq(q), pol)
    return (rest, None if f is None else lin_scale(f, -1), q, pol)


def norm_nf(nf):
    return (nf[0], nf[1] if nf[1] is not None else None, nf[2], nf[3])


def var_candidates(flow, elem, port, target, sig, vs, opt):
    """possible normal forms of a membership variable, from the target's members on its port"""
    out = []
    use = [t for t in target if unify(port, t[0], vs, sig) is not None]
    for tp, role, nf in use or target:
        # keys of a port that is not coupled here: assumed to carry the key as well
        rest, f, q, pol = nf
        if opt:
            for qq in ((q, flipq(q)) if q else (q,)):
                for x in ((rest, f, qq, pol),):
                    if x not in out:
                        out.append(x)
        else:
            for s in (1, -1):
                x = (rest, None if f is None else lin_scale(f, s), q, pol)
                if x not in out:
                    out.append(x)
    return out


def match_effect(flow, e, target, nonnull=(), canonport=None):
    """All ways effect e inserts exactly the target [(port, role, nf)]: yields (K, guards, val)."""
    members, val, mem, guards = flow.insert_parts(e)
    if len(members) != len(target):
        return
    opt = effect_optical(flow, members, mem)
    _, vs = memberships(e.loops)
    if e.func[2] == "nonlinear_triplet_insert":
        # the product of two inputs does not depend on their order
        members = [Member(m.port, m.key, "source" if m.role == "from" else m.role) for m in members]
        target = [(p, "source" if r == "from" else r, nf) for p, r, nf in target]
    froms = [m for m in members if m.role != "source"]
    srcs = [m for m in members if m.role == "source"]
    tfroms = [t for t in target if t[1] != "source"]
    tsrcs = [t for t in target if t[1] == "source"]
    if len(froms) != len(tfroms):
        return
    done = set()
    for perm in itertools.permutations(range(len(tsrcs))):
        pairs = list(zip(froms, tfroms)) + [(m, tsrcs[i]) for m, i in zip(srcs, perm)]
        sig = {}
        for m, t in pairs:
            if m.role != t[1]:
                sig = None
                break
            sig = unify(m.port, t[0], vs, sig)
            if sig is None:
                break
        if sig is None:
            continue
        elems = []
        cands = []
        for kind, port, elem in mem:
            elems.append(elem)
            cands.append(var_candidates(flow, elem, port, target, sig, vs, opt[elem]))
        for combo in itertools.product(*cands):
            K = Keys(flow, {})
            mp = dict((v, t) for v, t in sig.items() if v != t)
            K.optical = dict((subst(x, mp), o) for x, o in opt.items())
            K.nonnull = set(t[0] for t in target) | set(subst(p, mp) for _, p, _ in mem)
            K.env = dict((subst(x, mp), nf) for x, nf in zip(elems, combo))
            ok = True
            # the keys are read where the guards hold; the guards themselves are decided by the caller
            for _ in range(2):
                for g in guards:
                    c = K.canon(subst(g, mp))
                    if K.known(c) is False:
                        ok = False
                        break
                    K.assume(c)
            if not ok:
                continue
            for m, t in pairs:
                nf = K.key(subst(m.key, mp))
                if nf is None or nf != t[2]:
                    ok = False
                    break
            if not ok:
                continue
            key = (tuple(sorted(K.env.items(), key=repr)), tuple(sorted(mp.items(), key=repr)))
            if key in done:
                continue
            done.add(key)
            yield K, tuple(subst(g, mp) for g in guards), subst(val, mp)


def contributions(flow, method, target, tag):
    items = []
    for e in flow.inserts:
        if e.func[2] != method:
            continue
        for K, guards, val in match_effect(flow, e, target):
            items.append(Item(K, guards, val, tag))
    return items


# ------------------------------------------------------------------ conjugation with hermitian opaque responses
def hz_atoms(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ("hz", "hzc"):
            out.add(t)
            return
        for x in t:
            if isinstance(x, tuple):
                hz_atoms(x, out)


def flip_opaque(a):
    """An unspecified response evaluated at the negated classical frequencies."""
    if not isinstance(a, tuple) or not a:
        return a
    if a[0] == "R" and len(a) == 3:
        r = R(dict(a[1]), dict(a[2]))
        hs = set()
        hz_atoms(a, hs)
        r = r_subst(r, dict((h, -atom(h)) for h in hs))
        return ("R",) + r.frozen()
    return tuple(flip_opaque(x) if isinstance(x, tuple) else x for x in a)


# real responses that are odd in frequency by definition (a loss angle)
ODD = ("loss_angle_by_freq",)


def hermitian_conj(x):
    """complex conjugate of x: parameters are real, opaque responses Z(F) satisfy conj Z(F) = Z(-F)"""
    y = r_conj(x, lambda a: a[0] != "cx")
    mp = {}
    for a in y.atoms():
        if a[0] == "call":
            hs = set()
            hz_atoms(a, hs)
            if hs:
                mp[a] = atom(flip_opaque(a))
                if a[1][0] == "attr" and a[1][2] in ODD:
                    mp[a] = -mp[a]
    return r_subst(y, mp) if mp else y
