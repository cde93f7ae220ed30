"""C05: products of fields enter the linear system as their linearisation."""
from sa.algebra import num, atom, NotAlgebraic, new_budget
from sa.coupling import KAlg
from sa.interp import C, NONE, show, walk, contains, subst, is_const
from sa.loader import AnalysisBroken
from sa.objects import World, Unreadable
from sa.portflow import Keys

EXPLANATION = (
    "The classes that hold couplings and sources of the linear system are analysed with named abstract fields: every coupling and source "
    "function is computed as an algebraic normal form in the previous solution and compared with the linearisation of the product it stands "
    "for; declared dependencies are compared with the components the functions read. The insertion methods and the two routines that fill "
    "coupling matrix and source vector are analysed on small sets of named pairs with abstract values, including several insertions on one pair.")

MI = "phasor.system.matrix_injections"
BAD = (NotAlgebraic, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, ZeroDivisionError, Unreadable)


STYLE = ["distinct"]    # how the abstract components share ports and keys


def port(x):
    return C("p0" if STYLE[0] == "one port" and x not in "XY" else "p" + x)


def key(x):
    return C("k0" if STYLE[0] == "one key" and x not in "XY" else "k" + x)


def pk(x):
    return ("tuple", (port(x), key(x)))


SOL = ("sym", "sol")
SB = ("sym", "sb")
FLOAT = ("sym", "floating")


def small(t):
    """regularising constants (1e-20 and below) are zero"""
    if isinstance(t, tuple):
        if t and t[0] == "const":
            return C(0) if isinstance(t[1], float) and abs(t[1]) < 1e-20 else t
        return tuple(small(x) if isinstance(x, tuple) else x for x in t)
    return t


def read(w, func, args, kw):
    if func == FLOAT:
        return w.floating
    if func[0] == "attr" and func[2] == "symbolic_fiducial_substitute":
        return ("numeric", args[0])
    if func[0] == "attr" and func[1] == SOL and func[2] == "get":
        return ("sol", args[0], args[1] if len(args) > 1 else dict(kw).get("default", NONE))
    return None


def value(w, f):
    """-> (term, keys read)"""
    t = w.it.reify(w.apply(f, SOL, SB))
    t = subst_items(t)
    keys = set(x[1] for x in walk(t) if x and x[0] == "sol")
    if contains(t, lambda x: bool(x) and x[0] in ("opaque", "phi", "phi_out", "fold", "exc", "obj*")) or any(
            x == SOL for x in walk(strip_sol(t))):
        raise NotAlgebraic("unread use of the solution: %s" % show(t)[:100])
    return small(t), keys


def subst_items(t):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "item" and t[1] == SOL:
            return ("sol", subst_items(t[2]), NONE)
        return tuple(subst_items(x) if isinstance(x, tuple) else x for x in t)
    return t


def strip_sol(t):
    if isinstance(t, tuple):
        if t and t[0] == "sol":
            return C(0)
        return tuple(strip_sol(x) if isinstance(x, tuple) else x for x in t)
    return t


def absent(t, key):
    """value of t when the previous solution has no such component"""
    if isinstance(t, tuple):
        if t and t[0] == "sol" and t[1] == key:
            return t[2]
        return tuple(absent(x, key) if isinstance(x, tuple) else x for x in t)
    return t


def named(t):
    """components by name alone"""
    if isinstance(t, tuple):
        if t and t[0] == "sol":
            return ("sol", t[1])
        return tuple(named(x) if isinstance(x, tuple) else x for x in t)
    return t


def alg(t):
    return KAlg(Keys(None, {}))(t)


def S(x):
    return ("sol", pk(x))


def times(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = ("bin", "*", r, t)
    return r


class Inj:
    """couplings, sources and declared dependencies of one injection object"""

    def __init__(self, w, obj):
        self.w = w
        self.edges = dict((w.it.reify(k), v) for k, v, g in w.entries(w.attr(obj, "edges_pkpk_dict")))
        self.sources = dict((w.it.reify(k), v) for k, v, g in w.entries(w.attr(obj, "sources_pk_dict")))
        self.dep = {}
        for kind in ("edges", "sources"):
            for d in ("NZ", "req"):
                self.dep[kind, d] = dict((w.it.reify(k), set(w.it.reify(x) for x in w.elems(v)))
                                         for k, v, g in w.entries(w.attr(obj, "%s_%s_pkset_dict" % (kind, d))))


def judge(ctx, w, name, where, inj, expected, total=None):
    """expected: {("edge", f, t) | ("source", t): term in S(..)}; total: (target, factors, value) when only the sum counts"""
    got = {}
    for k, f in inj.edges.items():
        got[("edge",) + k[1]] = ("edges", k, f)
    for k, f in inj.sources.items():
        got["source", k] = ("sources", k, f)
    vals = {}
    for g, (kind, k, f) in got.items():
        t, keys = value(w, f)
        label = "%s of %s" % ("coupling" if kind == "edges" else "source", name)
        if g[0] == "edge":
            label = "coupling from %s of %s" % (g[1][1][0][1][1:], name)
        nz, req = inj.dep[kind, "NZ"].get(k, set()), inj.dep[kind, "req"].get(k, set())
        ctx.check(keys <= (req | nz), "dependencies", "%s declares what it reads" % label, where,
                  "reads %s undeclared" % sorted(show(x) for x in keys - req - nz))
        for z in sorted(nz):
            ctx.check(alg(named(absent(t, z))).is_zero(), "vanishing", "%s is zero without %s" % (label, show(z)), where, "value %s" % show(absent(t, z))[:120])
        vals[g] = alg(named(t))
    if total is not None:
        target, v = total
        s = num(0)
        for g, x in vals.items():
            if g[-1] != target:
                ctx.fail("product", "%s touches its own target only" % name, where, show(g[-1]))
                return
            s = s + (x * alg(("sol", g[1])) if g[0] == "edge" else x)
        ctx.check((s - alg(v)).is_zero(), "product", "%s: contributes its product once" % name, where, "contributes %s" % repr(s)[:200])
        return
    for g in sorted(set(vals) | set(expected), key=repr):
        e = expected.get(g)
        have = vals.get(g, num(0))
        want = alg(e) if e is not None else num(0)
        ctx.check((have - want).is_zero(), "product", "%s: %s" % (name, "coupling from %s" % show(g[1]) if g[0] == "edge" else "source"), where,
                  "is %s, expected %s" % (repr(have)[:120], repr(want)[:120]))


P = lambda n: ("param", n)


def algorithm(w, prog, ports="ABCDTU"):
    ci = prog.get_class("phasor.system.matrix_algorithm", "MatrixBuildAlgorithm")
    sets = {}
    for x in ports:
        sets.setdefault(port(x), []).append(key(x))
    return w.blank(ci, port_cplgs=w.dict([(p, w.set(ks)) for p, ks in sets.items()])), ci.module.path


def world(prog):
    return World(prog, objects=(MI + ":",), calls=read, fns={
        "check_symbolic_type": lambda w, a, k: C(False)}, dicts=("KeyMatrix", "KeyVector"))


def args4(f, t):
    return [port(f), key(f), port(t), key(t)]


def cases():
    return [
        # name, [(method, args)], expected edges/sources (product of factors), total
        ("constant coupling", [("port_coupling_insert", args4("A", "T") + [P("c")])], {("edge", pk("A"), pk("T")): P("c")}),
        ("coupling conditioned on one field", [("port_coupling_insert", args4("A", "T") + [P("c"), pk("B")])],
         {("edge", pk("A"), pk("T")): times(P("c"), S("B"))}),
        ("coupling conditioned on three fields", [("port_coupling_insert", args4("A", "T") + [P("c"), pk("B"), pk("C"), pk("D")])],
         {("edge", pk("A"), pk("T")): times(P("c"), S("B"), S("C"), S("D"))}),
        ("coupling conditioned twice on one field", [("port_coupling_insert", args4("A", "T") + [P("c"), pk("B"), pk("B")])],
         {("edge", pk("A"), pk("T")): times(P("c"), S("B"), S("B"))}),
        ("constant source", [("coherent_sources_insert", [port("T"), key("T"), P("c")])], {("source", pk("T")): P("c")}),
        ("source conditioned on two fields", [("coherent_sources_insert", [port("T"), key("T"), P("c"), pk("A"), pk("B")])],
         {("source", pk("T")): times(P("c"), S("A"), S("B"))}),
        ("source conditioned twice on one field", [("coherent_sources_insert", [port("T"), key("T"), P("c"), pk("A"), pk("A")])],
         {("source", pk("T")): times(P("c"), S("A"), S("A"))}),
        ("product of two fields", [("nonlinear_triplet_insert", [pk("A"), pk("B"), pk("T"), P("c")])],
         {("edge", pk("A"), pk("T")): times(P("c"), S("B")), ("edge", pk("B"), pk("T")): times(P("c"), S("A")),
          ("source", pk("T")): ("un", "-", times(P("c"), S("A"), S("B")))}),
        ("square of a field", [("nonlinear_triplet_insert", [pk("A"), pk("A"), pk("T"), P("c")])], (pk("T"), times(P("c"), S("A"), S("A")))),
        ("two couplings on one pair", [("port_coupling_insert", args4("A", "T") + [P("c")]), ("port_coupling_insert", args4("A", "T") + [P("d"), pk("B")]),
                                       ("port_coupling_insert", args4("A", "T") + [P("e")])],
         {("edge", pk("A"), pk("T")): ("bin", "+", ("bin", "+", P("c"), times(P("d"), S("B"))), P("e"))}),
        ("three sources on one field", [("coherent_sources_insert", [port("T"), key("T"), P("c")]), ("coherent_sources_insert", [port("T"), key("T"), P("d"), pk("A")]),
                                        ("coherent_sources_insert", [port("T"), key("T"), P("e")])],
         {("source", pk("T")): ("bin", "+", ("bin", "+", P("c"), times(P("d"), S("A"))), P("e"))}),
        ("products sharing a field", [("nonlinear_triplet_insert", [pk("A"), pk("B"), pk("T"), P("c")]), ("nonlinear_triplet_insert", [pk("C"), pk("B"), pk("T"), P("d")]),
                                      ("nonlinear_triplet_insert", [pk("A"), pk("B"), pk("U"), P("e")])],
         {("edge", pk("A"), pk("T")): times(P("c"), S("B")), ("edge", pk("B"), pk("T")): ("bin", "+", times(P("c"), S("A")), times(P("d"), S("C"))),
          ("edge", pk("C"), pk("T")): times(P("d"), S("B")), ("edge", pk("A"), pk("U")): times(P("e"), S("B")), ("edge", pk("B"), pk("U")): times(P("e"), S("A")),
          ("source", pk("T")): ("un", "-", ("bin", "+", times(P("c"), S("A"), S("B")), times(P("d"), S("C"), S("B")))),
          ("source", pk("U")): ("un", "-", times(P("e"), S("A"), S("B")))}),
    ]


def insertion(ctx, name, inserts, expected):
    """what the insertion methods build, dependency by dependency"""
    w = world(ctx.prog)
    m, where = algorithm(w, ctx.prog)
    for meth, a in inserts:
        w.call(m, meth, *a)
    objs = w.elems(w.attr(m, "all_injections"))
    if len(inserts) == 1:
        if len(objs) != 1:
            raise Unreadable("%d injection objects" % len(objs))
        tot = expected if isinstance(expected, tuple) else None
        judge(ctx, w, name, where, Inj(w, objs[0]), None if tot else expected, tot)
    total(ctx, w, m, name, where, expected)


def live(entries, vals_nonzero=True):
    """entries of a concrete dictionary, guarded only by their value being nonzero"""
    out = {}
    for k, v, gs in entries:
        for g in gs:
            ok = any(x and x[0] == "cmp" and x[1] == "==" and C(0) in x[2:] for x in walk(g)) and g[0] == "not"
            if not ok:
                raise Unreadable("guard %s" % show(g)[:80])
        out[k] = v
    return out


def total(ctx, w, m, name, where, expected):
    """what the routines that fill the matrix and the source vector compute from it"""
    ci = ctx.prog.get_class("phasor.system.solver_algorithm", "SystemSolver")
    s = w.blank(ci, matrix_algorithm=m)
    fl = w.attr(m, "coupling_matrix_inj_funclist")
    pairs = [w.it.reify(k) for k, v, g in w.entries(fl)]
    seq, req = {}, {}
    for p in pairs:
        seq.setdefault(p[1][0], []).append(p[1][1])
        req.setdefault(p[1][1], []).append(p[1][0])
    for bond in (("X", "Y"),):
        seq.setdefault(pk(bond[0]), []).append(("tuple", (C("pY"), C("kX"))))
        req.setdefault(("tuple", (C("pY"), C("kX"))), []).append(pk("X"))
    w.it.store[(m, "bonds_trivial")] = w.dict([(pk("X"), w.dict([(("tuple", (C("pY"), C("kX"))), C(1))]))])
    # the lists are frozen into plain dictionaries before they are used
    for n in ("coupling_matrix_inj_funclist", "source_vector_inj_funclist"):
        d = w.attr(m, n)
        w.it.heap[d[1]].default = None
    seq = w.dict([(k, w.set(v)) for k, v in seq.items()])
    req = w.dict([(k, w.set(v)) for k, v in req.items()])
    r = w.call(s, "_edge_matrix_generate", seq=seq, req=req, solution_vector_prev=SOL, solution_bunch_prev=SB)
    mats = w.elems(r)
    sv = w.attr(m, "source_vector_inj_funclist")
    srcs = [k for k, v, g in w.entries(sv)]
    r2 = w.call(s, "_source_vector_generate", inputs_iter=w.set(srcs), solution_vector_prev=SOL, solution_bunch_prev=SB)
    vecs = w.elems(r2)
    got = {}
    for k, v in live(w.entries(mats[0])).items():
        k = w.it.reify(k)
        got[("edge",) + k[1]] = v
    for k, v in live(w.entries(vecs[0])).items():
        got["source", w.it.reify(k)] = v
    bond = got.pop(("edge", pk("X"), ("tuple", (C("pY"), C("kX")))), None)
    where = ci.module.path
    ctx.check(bond == C(1), "totals", "%s: bonds couple with one" % name, where, "bond value %s" % (show(bond) if bond else None))
    vals = {}
    for g, v in got.items():
        t = small(subst_items(w.it.reify(v)))
        if contains(t, lambda x: bool(x) and x[0] in ("opaque", "phi", "phi_out", "fold", "exc", "obj*")):
            raise NotAlgebraic(show(t)[:100])
        vals[g] = alg(named(t))
    if isinstance(expected, tuple):
        s_ = num(0)
        for g, x in vals.items():
            s_ = s_ + (x * alg(("sol", g[1])) if g[0] == "edge" else x)
        ctx.check((s_ - alg(expected[1])).is_zero(), "totals", "%s: enters the system once" % name, where, repr(s_)[:200])
        return
    for g in sorted(set(vals) | set(expected), key=repr):
        have, want = vals.get(g, num(0)), alg(expected[g]) if g in expected else num(0)
        ctx.check((have - want).is_zero(), "totals", "%s: %s of the assembled system" % (name, "coupling from %s to %s" % (show(g[1]), show(g[2])) if g[0] == "edge" else "source at %s" % show(g[1])), where,
                  "is %s, expected %s" % (repr(have)[:120], repr(want)[:120]))


def normed(ctx, suffix):
    """products divided by a function of further fields"""
    prog = ctx.prog
    for cname, norms in (("TripletNormCoupling", "N"), ("TripletNormsCoupling", "NMO")):
        ci = prog.get_class(MI, cname)
        where = ci.module.path
        for same in (False, True):
            name = "%s, %s%s" % (cname, "square of a field" if same else "two fields", suffix)
            w = world(prog)
            b = "A" if same else "B"
            kw = dict(pkfrom1=pk("A"), pkfrom2=pk(b), pkto=pk("T"), cplg=P("c"))
            if len(norms) == 1:
                kw.update(pknorm=pk("N"), pknorm_func=P("nf"))
            else:
                kw.update(pknorms=w.list([pk(x) for x in norms]), pknorms_func=P("nf"))
            known = set(a.arg for a in prog.lookup(ci, "__init__")[1].args.args)
            if not set(kw) <= known:
                ctx.undecided("%s takes %s" % (cname, sorted(known)))
                continue
            inj = Inj(w, w.new(ci, **kw))
            nf = ("call", P("nf"), tuple(S(x) for x in norms), ())
            if same:
                judge(ctx, w, name, where, inj, None, (pk("T"), ("bin", "/", times(P("c"), S("A"), S("A")), nf)))
            else:
                judge(ctx, w, name, where, inj, {
                    ("edge", pk("A"), pk("T")): ("bin", "/", times(P("c"), S("B")), nf),
                    ("edge", pk("B"), pk("T")): ("bin", "/", times(P("c"), S("A")), nf),
                    ("source", pk("T")): ("un", "-", ("bin", "/", times(P("c"), S("A"), S("B")), nf))})


def field_space(ctx):
    """every inserted component is made known to the field space, missing ones refused"""
    for name, inserts, expected in cases()[:9]:
        w = world(ctx.prog)
        m, where = algorithm(w, ctx.prog)
        for meth, a in inserts:
            w.call(m, meth, *a)
        added = set()
        for e in w.it.effects:
            if e.kind == "call" and e.func[0] == "attr" and e.func[2] == "keys_add":
                added |= set(w.it.reify(x) for x in e.args)
        want = set()
        for d, k in (("coupling_matrix_inj_funclist", "edge"), ("source_vector_inj_funclist", "source")):
            for key, v, g in w.entries(w.attr(m, d)):
                key = w.it.reify(key)
                want |= set(key[1]) if k == "edge" else set([key])
        if not added and not any(e.kind == "call" for e in w.it.effects):
            raise Unreadable("field space")
        ctx.check(want <= added, "space", "%s: its components belong to the field space" % name, where, "missing %s" % [show(x) for x in want - added])


def floating(ctx, symbolic):
    """couplings an injection computes as a block enter under their own pairs, symbolic ones also numerically"""
    w = World(ctx.prog, objects=(MI + ":",), calls=read, fns={"check_symbolic_type": lambda w, a, k: C(symbolic)}, dicts=("KeyMatrix", "KeyVector"))
    m, where = algorithm(w, ctx.prog)
    base = ctx.prog.get_class(MI, "FactorCouplingBase")
    obj = w.blank(base)
    ins, outs = [pk("A"), pk("B")], [pk("T"), pk("U")]
    w.it.store[(obj, "floating_in_out_func_pairs")] = w.list([("tuple", (w.set(ins), w.set(outs), FLOAT))])
    block = {("tuple", (pk("A"), pk("T"))): P("v1"), ("tuple", (pk("B"), pk("T"))): P("v2"), ("tuple", (pk("A"), pk("U"))): P("v3")}
    w.floating = w.dict(block)
    w.call(m, "injection_insert", obj)
    if symbolic is False:
        added = set(w.it.reify(x) for e in w.it.effects if e.kind == "call" and e.func[0] == "attr" and e.func[2] == "keys_add" for x in e.args)
        ctx.check(set(ins + outs) <= added, "space", "block couplings: their components belong to the field space", where, "missing %s" % [show(x) for x in set(ins + outs) - added])
    w.call(m, "port_coupling_insert", *(args4("C", "D") + [P("c")]))
    ci = ctx.prog.get_class("phasor.system.solver_algorithm", "SystemSolver")
    s = w.blank(ci, matrix_algorithm=m)
    w.it.store[(m, "bonds_trivial")] = w.dict([])
    for n in ("coupling_matrix_inj_funclist", "source_vector_inj_funclist"):
        w.it.heap[w.attr(m, n)[1]].default = None
    seq = w.dict([(pk("C"), w.set([pk("D")])), (pk("A"), w.set([])), (pk("B"), w.set([]))])
    req = w.dict([(pk("D"), w.set([pk("C")])), (pk("T"), w.set([])), (pk("U"), w.set([]))])
    r = w.call(s, "_edge_matrix_generate", seq=seq, req=req, solution_vector_prev=SOL, solution_bunch_prev=SB)
    mats = w.elems(r)
    want = dict(block)
    want[("tuple", (pk("C"), pk("D")))] = P("c")
    where = ci.module.path
    kind = "symbolic" if symbolic else "numeric"
    for i, f in (((0, (lambda v: ("numeric", v))), (1, lambda v: v)) if symbolic else ((0, lambda v: v),)):
        got = dict((w.it.reify(k), w.it.reify(v)) for k, v in live(w.entries(mats[i])).items())
        for k in sorted(set(want) | set(got), key=repr):
            e = f(want[k]) if k in want else None
            ctx.check(got.get(k) == e, "totals", "%s block coupling %s, matrix %d" % (kind, show(k), i), where,
                      "is %s, expected %s" % (show(got[k]) if k in got else "absent", show(e) if e else "absent"))
    for d, pairs in ((seq, [(k[1][0], k[1][1]) for k in want]), (req, [(k[1][1], k[1][0]) for k in want])):
        have = dict((w.it.reify(k), set(w.it.reify(x[0]) for x in w.it.heap[v[1]].items)) for k, v, g in w.entries(d))
        for a, b in pairs:
            ctx.check(b in have.get(a, ()), "totals", "%s block coupling between %s and %s is linked" % (kind, show(a), show(b)), where, "not linked")


def attempt(ctx, name, f, *a):
    new_budget()
    try:
        f(ctx, *a)
    except AnalysisBroken:
        raise
    except BAD as ex:
        ctx.undecided("%s: %s %s" % (name, type(ex).__name__, str(ex)[:140]))


def run(ctx):
    try:
        for STYLE[0] in ("distinct", "one port", "one key"):
            suffix = "" if STYLE[0] == "distinct" else ", components of " + STYLE[0]
            for name, inserts, expected in cases():
                attempt(ctx, "insertion " + name + suffix, insertion, name + suffix, inserts, expected)
            attempt(ctx, "normed products" + suffix, normed, suffix)
    finally:
        STYLE[0] = "distinct"
    attempt(ctx, "field space", field_space)
    attempt(ctx, "block couplings", floating, False)
    attempt(ctx, "symbolic block couplings", floating, True)
    ctx.floor("product", 4)
    ctx.floor("totals", 4)
