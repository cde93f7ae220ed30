"""C01: every coupling an element inserts joins keys that each side requests from the other."""
import itertools

from sa.interp import show, contains, C, walk
from sa.loader import AnalysisBroken
from sa.portflow import ElementFlow, Keys, unify, ALGO, strip, lin_scale

EXPLANATION = ("effect analysis of system_setup_ports / system_setup_coupling of every element class")

UNIMPORTABLE = ("phasor.matrix.old", "phasor.optics.not_ready", "phasor.optics.faraday_isolator")


def element_classes(prog):
    for ci in prog.all_classes():
        if ci.module.name.startswith(UNIMPORTABLE):
            continue
        if prog.lookup(ci, "system_setup_coupling") is None:
            continue
        if prog.lookup(ci, "system_setup_ports") is None and prog.lookup(ci, "system_setup_ports_initial") is None:
            continue
        yield ci


def covers(n, X, others, K0, gap):
    """Assignments under which the request n asks for X: -> list of (mapped index set, kinds)"""
    s0 = unify(n.port, X.port, n.vars, {})
    if s0 is None:
        return []
    out = []
    idxs = range(len(others))
    for assign in itertools.product(idxs, repeat=len(n.members)):
        sig = dict(s0)
        ok = True
        env = {}
        for (kind, port, elem), j in zip(n.members, assign):
            s1 = unify(port, others[j].port, n.vars, sig)
            if s1 is None:
                ok = False
                break
            sig = s1
            env[elem] = K0.nf[j]
        if not ok:
            continue
        K = Keys(K0.flow, K0.cases, K0.facts)
        K.optical = K0.optical
        K.nonnull = K0.nonnull
        K.zero = K0.zero
        K.env = dict(env)
        for v, t in sig.items():
            if v not in K.env and v != t:
                K.env.setdefault(("sub", v), t)
        inv = [(v, t) for v, t in sig.items() if v not in env]
        key = n.key
        guards = list(n.guards)
        if inv:
            from sa.interp import subst
            mp = dict(inv)
            key = subst(key, mp)
            guards = [subst(g, mp) for g in guards]
            K.env = dict((subst(e, mp), nf) for e, nf in env.items())
        nf = K.key(key)
        if nf is None or nf != X.nf:
            continue
        bad = []
        for g in guards:
            v = K.known(K.canon(g))
            if v is not True:
                bad.append((g, v, K.canon(g)))
        if any(v is False for g, v, c in bad):
            continue
        if bad:
            gap.append((n, bad))
            continue
        kinds = {}
        for (kind, port, elem), j in zip(n.members, assign):
            kinds.setdefault(j, []).append(kind)
        out.append((frozenset(assign), kinds))
    return out


def pattern_ok(cov, S):
    S = sorted(S)
    for pat in itertools.product((True, False), repeat=len(S)):
        if not any(pat):
            continue
        state = dict(zip(S, pat))
        hit = False
        for T, kinds in cov:
            if T != frozenset(S):
                continue
            if all(all(k == "full" or (k == "new" and state[j]) or (k == "old" and not state[j]) for k in kinds[j]) for j in S):
                hit = True
                break
        if not hit:
            return False
    return True


def requested(flow, X, others, K, gap):
    cov = []
    for n in flow.needs:
        if not n.members:
            s0 = unify(n.port, X.port, n.vars, {})
            if s0 is not None and K.key(n.key) == X.nf and (others or n.initial):
                if all(K.known(K.canon(g)) is True for g in n.guards):
                    return True
            continue
        cov += covers(n, X, others, K, gap)
    for r in range(1, len(others) + 1):
        for S in itertools.combinations(range(len(others)), r):
            if pattern_ok(cov, S):
                return True
    return False


def unrelated_limit(K, guards):
    """a frequency whose order limit decides over the coupling though all of its own components are within theirs"""
    cs = [K.canon(g) for g in guards]
    rej = []
    for c in cs:
        for x in walk(c):
            if x and x[0] == "reject" and x[1] and x not in rej and K.known(x) is None:
                rej.append(x)
    for vals in itertools.product((True, False), repeat=min(len(rej), 4)):
        K2 = Keys(K.flow, K.cases, K.facts)
        K2.optical, K2.nonnull, K2.zero, K2.env = K.optical, K.nonnull, K.zero, K.env
        for x, v in zip(rej, vals):
            K2.facts.add(x if v else ("not", x))
        if any(K2.known(c) is False for c in cs):
            return [x for x, v in zip(rej, vals) if v] or rej
    return []


def analyse(ctx, ci):
    flow = ElementFlow(ctx.prog, ci)
    for e in flow.inserts:
        members, val, mem, guards = flow.insert_parts(e)
        opt = {}
        keyvars = []
        for kind, port, elem in mem:
            opt[elem] = flow.is_optical(port)
            if opt[elem]:
                keyvars.append(elem)
        for cases in itertools.product([(q, p) for q in "LR" for p in ("PS" if flow.polar else (None,))], repeat=len(keyvars)):
            K = Keys(flow, dict(zip(keyvars, cases)))
            K.optical = opt
            K.nonnull = set(m.port for m in members) | set(p for _, p, _ in mem)
            feas = True
            for _ in range(2):
                for g in guards:
                    c = K.canon(g)
                    v = K.known(c)
                    if v is False:
                        feas = False
                        break
                    K.assume(c)
            if not feas:
                continue
            unread = False
            for m in members:
                m.nf = K.key(m.key)
                if m.nf is None:
                    unread = True
            if unread:
                yield e, cases, None, None, None, [show(m.key) for m in members]
                continue
            for m in members:
                if m.nf[1] is not None:
                    K.facts.add(("not", ("reject", m.nf[1])))
                    K.facts.add(("not", ("reject", lin_scale(m.nf[1], -1))))
            L = Keys(flow, dict(zip(keyvars, cases)))
            L.optical, L.nonnull = K.optical, K.nonnull
            for g in guards:
                c = L.canon(g)
                if not any(x and x[0] == "reject" for x in walk(c)):
                    L.assume(c)
            for m in members:
                if m.nf[1] is not None:
                    L.facts.add(("not", ("reject", m.nf[1])))
                    L.facts.add(("not", ("reject", lin_scale(m.nf[1], -1))))
            yield e, cases, None, members, unrelated_limit(L, guards), None
            for i, X in enumerate(members):
                if e.func[2] == "coherent_sources_insert" and X.role != "to":
                    continue
                others = [m for j, m in enumerate(members) if j != i]
                K.nf = [m.nf for m in others]
                gap = []
                r = requested(flow, X, others, K, gap)
                yield e, cases, X, others, r, gap


def combined(f):
    """whether a frequency combines those of several components present (or multiplies one)"""
    n = [v for k, v in f if k[0] == "F"]
    return len(n) == len(f) and (len(n) > 1 or any(abs(v) != 1 for v in n))


def beyond(flow):
    """requests of components at combined frequencies, and whether each is made only within the order limits"""
    for n in flow.needs:
        if not n.members:
            continue
        opt = dict((elem, flow.is_optical(port)) for kind, port, elem in n.members)
        keyvars = [elem for kind, port, elem in n.members if opt[elem]]
        for cases in itertools.product([(q, p) for q in "LR" for p in ("PS" if flow.polar else (None,))], repeat=len(keyvars)):
            K = Keys(flow, dict(zip(keyvars, cases)))
            K.optical = opt
            K.nonnull = set([n.port]) | set(p for _, p, _ in n.members)
            nf = K.key(n.key)
            if nf is None or not nf[1] or not combined(nf[1]):
                continue
            own = [K.key(elem) for _, _, elem in n.members]
            if any(o is not None and nf[1] in (o[1], o[1] and lin_scale(o[1], -1)) for o in own):
                continue
            lim = [x[1] for g in n.guards for x in walk(K.canon(g)) if x and x[0] == "reject"]
            yield n, cases, nf[1] in lim or lin_scale(nf[1], -1) in lim


def undecided(ctx, msg):
    ctx.undecided(msg)


def run(ctx):
    nclass = 0
    for ci in element_classes(ctx.prog):
        nclass += 1
        try:
            res = list(analyse(ctx, ci))
            within = list(beyond(ElementFlow(ctx.prog, ci)))
        except AnalysisBroken:
            raise
        except Exception as ex:
            # constructs outside the analysed fragment: reported as undecided, never as an alarm
            undecided(ctx, "%s: %s %s" % (ci.qual, type(ex).__name__, str(ex)[:160]))
            continue
        for e, cases, X, others, r, gap in res:
            if X is None and gap is None:
                cons = "%s %s %s" % (ci.qual, "->".join(show(m.port)[:40] for m in others), "".join(a + (b or "") for a, b in cases))
                ctx.check(not r, "limits", cons, e.loc, "is left out when another frequency is beyond its order limit: %s" % [show(x)[:100] for x in r or ()])
                continue
            if X is None:
                undecided(ctx, "%s %s: key not readable at %s" % (ci.qual, show(e.args[0])[:80], e.loc))
                continue
            rule = "edge" if e.func[2] == "port_coupling_insert" else e.func[2]
            cons = "%s %s@%s%s <- %s" % (ci.qual, show(X.port), show(X.key)[:60], "".join(a + (b or "") for a, b in cases), ",".join(show(o.port) for o in others))
            if r:
                ctx.ok(rule, cons)
            else:
                ctx.fail(rule, cons, e.loc, "no request; near: %s" % [(n.eff.loc, [(show(g)[:80], v) for g, v, c in b]) for n, b in gap[:2]])
        for n, cases, ok in within:
            ctx.check(ok, "within limits", "%s %s %s" % (ci.qual, show(n.port)[:60], "".join(a + (b or "") for a, b in cases)), n.eff.loc,
                      "requests a combined frequency without asking whether its order is within the limits")
    ctx.info["classes"] = nclass
