"""C11: system assembly, iteration and the solutions handed to readouts."""
import itertools

from sa.algebra import NotAlgebraic
from sa.evalterm import Point
from sa.interp import C, NONE, FALSE, TRUE, SurelyFails, Value, show
from sa.loader import AnalysisBroken
from sa.objects import World, Unreadable
from checks.c10 import solve, read_sets, plainname

MATRIX = "phasor.system.matrix_algorithm"
SOLVER = "phasor.system.solver_algorithm"
INJ = "phasor.system.matrix_injections"
BAD = (NotAlgebraic, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, Unreadable, StopIteration, ArithmeticError)

EXPLANATION = (
    "The matrix builder and the solver are analysed as one transformer from the contributions the elements insert (constant, "
    "field-dependent, shared edges, block couplings, bonds through adaptors) to the solutions published per order and per named set. "
    "The linear solver is abstract: it consumes the containers it is given, and returns the solution of exactly the system they describe. "
    "The published value of every node is compared, as a function of the contributions, with the recursion x_N = (1 - M(x_(N-1)))^-1 s(x_(N-1)).")
ASSUMPTIONS = ["the linear solver returns the exact solution of the system it is given (C10)",
               "small systems stand for all: nodes are treated only through equality and set membership"]


class Fn(Value):
    """a coupling function of the previous solution: a product of an abstract coefficient and powers of fields"""

    def __init__(self, name, fields=(), zero=False):
        self.name, self.fields, self.zero = name, fields, zero

    def __repr__(self):
        return "Fn(%s)" % self.name


class Block(Value):
    """a block coupling: edges as functions of the previous solution"""

    def __init__(self, edges):
        self.edges = edges


class Element(Value):
    def __init__(self, insert=(), noise=()):
        self.insert, self.noise = insert, noise

    def attr(self, it, name):
        if name in ("system_associated_readout_view",):
            raise SurelyFails("AttributeError: %s" % name)
        return None

    def method(self, it, name, args, kw):
        if name == "system_setup_coupling":
            for meth, a in self.insert:
                f = it.get_attr(args[0], meth)
                it.call(f, [x(it) if callable(x) else x for x in a], [], None)
            return NONE
        if name == "system_setup_noise":
            return NONE
        return None


class Space(Value):
    """the key space; keys outside it are refused by the real one only after it is frozen"""

    def __init__(self):
        self.keys, self.frozen = set(), False

    def method(self, it, name, args, kw):
        if name == "keys_add":
            for a in args:
                if self.frozen and a not in self.keys:
                    raise SurelyFails("RuntimeError: cannot add keys to frozen key group")
                self.keys.add(a)
            return NONE
        if name == "freeze":
            self.frozen = True
            return NONE
        if name == "copy":
            return C(Space())
        return None


class Bunch(Value):
    def __init__(self, **d):
        self.d = d

    def attr(self, it, name):
        return self.d.get(name)

    def method(self, it, name, args, kw):
        if name == "get" and args and args[0][0] == "const":
            return self.d.get(args[0][1], args[1] if len(args) > 1 else NONE)
        return None


def pk(n):
    return ("tuple", (C(n[0]), C(n[1])))


class Net:
    """an abstract system.  nodes are (port, key) pairs of names"""

    def __init__(self, title, sources=(), edges=(), bonds=(), pre=(), post=(), blocks=(), norms=(), drives=(), reads=(), exact=None, triplets=(), forced=(), epsilon=None):
        self.title, self.sources, self.edges, self.bonds, self.pre, self.post = title, sources, edges, bonds, dict(pre), dict(post)
        self.blocks, self.norms, self.drives, self.reads, self.exact, self.triplets, self.forced = blocks, norms, dict(drives), dict(reads), exact, triplets, forced
        self.epsilon = epsilon

    def ports(self):
        out = {}
        for n in self.nodes():
            out.setdefault(n[0], []).append(n[1])
        return out

    def nodes(self):
        ns = []
        for t, c, f in self.sources:
            ns += [t] + list(f)
        for a, b, c, f in self.edges:
            ns += [a, b] + list(f)
        for a, b, t, c in self.triplets:
            ns += [a, b, t]
        for a, b, t, nrm, c in self.norms:
            ns += [a, b, t, nrm]
        for ins, outs, es in self.blocks:
            ns += list(ins) + list(outs)
        return list(dict.fromkeys(ns))


COEFF = {}


class Partial(Point):
    """coefficients named part... vanish at the first of the frequencies solved for, parts... at the last"""

    def atom(self, t):
        new = t not in self.atoms
        v = Point.atom(self, t)
        if new and t[0] == "sym" and isinstance(t[1], str) and t[1].startswith("part"):
            v = v[:-1] + (0j,) if t[1].startswith("parts") else (0j,) + v[1:]
            self.atoms[t] = v
        return v


def coeff(c):
    return c if isinstance(c, tuple) else ("sym", c)


def world(prog, net, point, log):
    def numeric(t):
        return point.vec(point(w.it.reify(t)))

    def decide(it, c):
        if c[0] == "not":
            v = decide(it, c[1])
            return None if v is None else not v
        if c[0] == "call" and c[1][0] == "global" and c[1][1].split(".")[-1] in ("all", "any") and len(c[2]) == 1:
            q = c[2][0]
            if q[0] == "cmp":
                f = any if c[1][1].split(".")[-1] == "any" else all
                return f(holds(q))
            return None
        if c[0] == "cmp" and c[1] in ("==", "!=", "<", "<=", ">", ">="):
            try:
                return all(holds(c))
            except BAD:
                return None
        return None

    def holds(q):
        a, b = numeric(q[2]), numeric(q[3])
        op = q[1]
        return [{"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x.real < y.real, "<=": lambda: x.real <= y.real,
                 ">": lambda: x.real > y.real, ">=": lambda: x.real >= y.real}[op]() for x, y in zip(a, b)]

    def calls(w, func, args, kw):
        name = func[2] if func[0] == "attr" else func[1].split(".")[-1] if func[0] == "global" else None
        if func[0] == "const" and isinstance(func[1], Fn):
            f = func[1]
            t = coeff(f.name)
            for n in f.fields:
                t = ("bin", "*", t, w.it.call(w.it.get_attr(args[0], "get"), [pk(n), C(0)], [], None))
            return t
        if func[0] == "const" and isinstance(func[1], Block):
            return w.dict([(("tuple", (pk(a), pk(b))), w.it.call(C(f), list(args), [], None)) for a, b, f in func[1].edges])
        if name in ("Bunch", "DeepBunch", "FrozenBunch"):
            return C(Bunch(**dict(kw)))
        if name in ("asarray", "array", "asanyarray") and len(args) == 1:
            return args[0]
        if name == "purge_keys" and func[1][0] == "const":
            return func[1]
        if name == "check_symbolic_type":
            return FALSE
        if not args and not kw and "solvers_all" in show(func)[:200]:
            return C(Stub(w, point, log, net))
        if name == "inf" or (name == "float" and args):
            return ("sym", "infinity")
        return None

    def new(it, qual, args, kw, node):
        n = qual.split(":")[-1]
        if n in ("KeyVector", "KeyMatrix"):
            return it.new_heap("dict")
        if n == "KVSpace":
            return C(Space())
        return None

    fns = dict(_setup_views=lambda w, a, k: NONE, delta_v_compute=lambda w, a, k: delta(w, log, net, a, k), check_symbolic_type=lambda w, a, k: FALSE)
    w = World(prog, exact=True, objects=("MatrixBuildAlgorithm", "SystemSolver", "phasor.system.matrix_injections"), fns=fns, calls=calls, decide=decide, new_hook=new)
    w.numeric = numeric
    return w


def delta(w, log, net, args, kw):
    """the change between successive solutions: below tolerance from the order the system says"""
    log["delta"] = log.get("delta", 0) + 1
    small = net.epsilon is not None and log["delta"] >= net.epsilon
    return ("tuple", (C(1e-9 if small else 1.), ("tuple", (C("k"), C(1.)))))


class Stub(Value):
    """a linear solver: consumes its containers, answers for exactly the system they describe"""

    def __init__(self, w, point, log, net):
        self.w, self.point, self.log, self.net = w, point, log, net

    def method(self, it, name, args, kw):
        if name != "inverse_solve_inplace":
            return None
        kw = dict(kw)
        for n, a in zip(("seq", "req", "edge_map", "outputs_set", "inputs_set", "inputs_map"), args):
            kw[n] = a
        w, p = self.w, self.point
        seq, req = read_sets(w, kw["seq"], p), read_sets(w, kw["req"], p)
        pairs = set((a, b) for a, s in seq.items() for b in s)
        back = set((a, b) for b, s in req.items() for a in s)
        if pairs != back:
            raise Inconsistent("successor and predecessor sets differ at %s" % sorted(pairs ^ back, key=str)[:2])
        e = {plainname(k): w.numeric(v) for k, v, g in w.entries(kw["edge_map"])}
        if pairs - set(e):
            raise Inconsistent("no value for edge %s" % (sorted(pairs - set(e), key=str)[:2],))
        e = {k: v for k, v in e.items() if k in pairs}
        outs = [plainname(x) for x in w.elems(kw["outputs_set"])]
        ins = [plainname(x) for x in w.elems(kw["inputs_set"])] if "inputs_set" in kw else []
        src = {plainname(k): w.numeric(v) for k, v, g in w.entries(kw["inputs_map"])} if kw.get("inputs_map", NONE) != NONE else {}
        scat = kw.get("scattering", FALSE) == TRUE
        neg = kw.get("negative", FALSE) == TRUE
        nodes = sorted(set(x for q in pairs for x in q) | set(src) | set(ins) | set(outs), key=str)
        ans = [linear(nodes, {q: v[k] for q, v in e.items()}, {n: v[k] for n, v in src.items()}, ins, outs, scat, neg) for k in range(p.width)]
        o = w.it.new_heap("dict")
        em = w.it.new_heap("dict")

        def put(h, key, vals, tag):
            if any(vals):
                self.log["n"] = self.log.get("n", 0) + 1
                s = ("sym", "x%d" % self.log["n"])
                p.atoms[s] = tuple(vals)
                w.it.heap[h[1]].items.append((key, s, (), ()))
        for n in outs:
            put(o, pk(n), [a[0].get(n, 0j) for a in ans], "x")
        for a in ins:
            for b in outs:
                put(em, ("tuple", (pk(a), pk(b))), [x[1][a, b] for x in ans], "t")
        # what the real one consumes
        for n in ("seq", "req", "edge_map"):
            h = w.it.heap[kw[n][1]] if kw[n][0] == "obj" else None
            if h is None:
                raise Unreadable("solver container %s" % n)
            if n == "edge_map":
                h.items = []
            else:
                for k, v, l, g in list(h.items):
                    if v[0] == "obj":
                        w.it.heap[v[1]].items = []
                h.items = []
        return C(Bunch(outputs_map=o, edge_map=em, seq=w.it.new_heap("dict"), req=w.it.new_heap("dict")))


class Inconsistent(Exception):
    pass


def linear(nodes, e, src, ins, outs, scat=True, neg=False):
    idx = {n: i for i, n in enumerate(nodes)}
    A = [[(1 + 0j if i == j else 0j) if scat else 0j for j in range(len(nodes))] for i in range(len(nodes))]
    for (a, b), v in e.items():
        A[idx[b]][idx[a]] += -v if scat else v
    s = -1 if neg else 1
    x = solve(A, [s * src.get(n, 0j) for n in nodes]) if any(src.values()) else [0j] * len(nodes)
    t = {}
    for a in ins:
        y = solve(A, [s * (1 + 0j) if n == a else 0j for n in nodes])
        for b in outs:
            t[a, b] = clean(y[idx[b]])
    return {n: clean(x[idx[n]]) for n in nodes}, t


def clean(z):
    return z if abs(z) > 1e-13 else 0j


# ---------------------------------------------------------------- reference
def expand_bonds(net):
    """bond edges: from the driving side through its outgoing adaptors, the receiving side's incoming adaptors"""
    keys = {}
    for p, ks in net.ports().items():
        keys[p] = ks
    out = []
    for a, b in net.bonds:
        chain = [a]
        while chain[-1] in net.post:
            chain.append(net.post[chain[-1]])
        tail = [b]
        while tail[0] in net.pre:
            tail.insert(0, net.pre[tail[0]])
        chain += tail
        for k in port_keys(net)[a]:
            out += [((x, k), (y, k)) for x, y in zip(chain, chain[1:])]
    return list(dict.fromkeys(out))


def port_keys(net):
    """every port of every bond carries the keys of the whole connected group"""
    d = {p: set(ks) for p, ks in net.ports().items()}
    for a, b in net.bonds:
        d.setdefault(a, set())
        d.setdefault(b, set())
    while True:
        n = {p: set(s) for p, s in d.items()}
        for a, b in net.bonds:
            u = n[a] | n[b]
            n[a], n[b] = set(u), set(u)
        if n == d:
            return {p: sorted(s) for p, s in d.items()}
        d = n


def reference(net, point, k, x):
    """-> (edges, sources) linearised at the solution x"""
    def val(c, fields):
        v = point.vec(point(coeff(c)))[k]
        for f in fields:
            v *= x.get(f, 0j)
        return v
    e, s = {}, {}
    for a, b in expand_bonds(net):
        e[a, b] = 1 + 0j
    for a, b, c, f in net.edges:
        e[a, b] = e.get((a, b), 0j) + val(c, f)
    for t, c, f in net.sources:
        s[t] = s.get(t, 0j) + val(c, f)
    for a, b, t, c in net.triplets:
        add_product(e, s, a, b, t, val(c, ()), x)
    for a, b, t, n, c in net.norms:
        if x.get(n):
            add_product(e, s, a, b, t, val(c, ()) / x[n], x)
    for ins, outs, es in net.blocks:
        for a, b, f in es:
            v = val(f.name, f.fields)
            if v:
                e[a, b] = v
    return e, s


def add_product(e, s, a, b, t, c, x):
    if a == b:
        e[a, t] = e.get((a, t), 0j) + c * x.get(a, 0j)
        return
    e[a, t] = e.get((a, t), 0j) + c * x.get(b, 0j)
    e[b, t] = e.get((b, t), 0j) + c * x.get(a, 0j)
    s[t] = s.get(t, 0j) - c * x.get(a, 0j) * x.get(b, 0j)


def all_nodes(net):
    return list(dict.fromkeys([x for q in expand_bonds(net) for x in q] + net.nodes() + [n for s in list(net.drives.values()) + list(net.reads.values()) for n in s]))


class Ref:
    def __init__(self, net, point):
        self.net, self.point, self.x = net, point, [[{} for _ in range(point.width)]]
        self.nodes = sorted(all_nodes(net), key=str)

    def order(self, n):
        while len(self.x) <= n:
            self.x.append([linear(self.nodes, *reference(self.net, self.point, k, x), (), ())[0] for k, x in enumerate(self.x[-1])])
        return self.x[n]

    def driven(self, n, out):
        return tuple(x.get(out, 0j) for x in self.order(n))

    def transfer(self, n, a, b):
        """response with the system linearised at the solution of order n"""
        r = []
        for k, x in enumerate(self.order(n)):
            e, s = reference(self.net, self.point, k, x)
            r.append(linear(self.nodes, e, {}, [a], [b])[1][a, b])
        return tuple(r)


# ---------------------------------------------------------------- the analysed side
def build(prog, net, point, log):
    w = world(prog, net, point, log)
    keys = port_keys(net)
    cplgs = w.dict([(C(p), w.set([C(k) for k in ks])) for p, ks in keys.items()])
    setd = lambda d: w.dict([(C(n), w.set([pk(x) for x in xs])) for n, xs in d.items()])
    ports = C(Bunch(port_cplgs=cplgs, drive_pk_sets=setd(net.drives), readout_pk_sets=setd(net.reads)))
    inserts = []
    for t, c, f in net.sources:
        inserts.append(("coherent_sources_insert", [C(t[0]), C(t[1]), coeff(c)] + [pk(x) for x in f]))
    for a, b, c, f in net.edges:
        inserts.append(("port_coupling_insert", [C(a[0]), C(a[1]), C(b[0]), C(b[1]), coeff(c)] + [pk(x) for x in f]))
    for a, b, t, c in net.triplets:
        inserts.append(("nonlinear_triplet_insert", [pk(a), pk(b), pk(t), coeff(c)]))
    for a, b, t, n, c in net.norms:
        ci = prog.get_class(INJ, "TripletNormCoupling")
        inserts.append(("injection_insert", [lambda it, a=a, b=b, t=t, n=n, c=c, ci=ci: it.make(ci.qual, [], [("pkfrom1", pk(a)), ("pkfrom2", pk(b)), ("pkto", pk(t)), ("pknorm", pk(n)), ("cplg", coeff(c))])]))
    for ins, outs, es in net.blocks:
        def mk(it, ins=ins, outs=outs, es=es):
            o = it.fresh(prog.get_class(INJ, "FactorCouplingBase"))
            it.store[(o, "floating_in_out_func_pairs")] = w.list([("tuple", (w.list([pk(x) for x in ins]), w.list([pk(x) for x in outs]), C(Block(es))))])
            it.store[(o, "floating_req_set")] = w.list([pk(x) for x in dict.fromkeys(y for a, b, f in es for y in f.fields)])
            return o
        inserts.append(("injection_insert", [mk]))
    for n in net.forced:
        def mk(it, n=n):
            o = it.fresh(prog.get_class(INJ, "FactorCouplingBase"))
            it.store[(o, "floating_req_set")] = w.list([pk(n)])
            return o
        inserts.append(("injection_insert", [mk]))
    half = len(inserts) // 2
    bonds = {}
    for a, b in net.bonds:
        bonds.setdefault(a, []).append(b)
    system = C(Bunch(elements=w.list([C(Element(inserts[:half])), C(Element(inserts[half:]))]), field_space=NONE, symbolic=FALSE, solver_name=C("abstract"),
                     bond_pairs=w.dict([(C(a), w.dict([(C(b), C(1)) for b in bs])) for a, bs in bonds.items()]),
                     ports_post=w.dict([(C(a), C(b)) for a, b in net.post.items()]), ports_pre=w.dict([(C(a), C(b)) for a, b in net.pre.items()]),
                     max_N=C(6), warning_N=C(5), exact_order=NONE if net.exact is None else C(net.exact),
                     ctree=C(Bunch(debug=C(Bunch(solver=C(Bunch())))))))
    malgo = w.new(w.cls(MATRIX, "MatrixBuildAlgorithm"), system=system, ports_algorithm=ports)
    sol = w.new(w.cls(SOLVER, "SystemSolver"), system=system, ports_algorithm=ports, matrix_algorithm=malgo)
    return w, malgo, sol


def where(prog, module, cname, mname):
    ci = prog.get_class(module, cname)
    m = ci.members.get(mname)
    return "%s:%d" % (ci.module.path, m.lineno if m is not None else ci.node.lineno)


def close(a, b):
    return all(abs(x - y) <= 1e-7 * max(1., abs(x), abs(y)) for x, y in zip(a, b))


def published(w, bunch, table):
    sol = w.attr(bunch, table)
    return {plainname(k): w.numeric(v) for k, v, g in w.entries(sol)}


def check_driven(ctx, prog, net, orders):
    """solutions of the given orders for every read set, and the default one"""
    at = where(prog, SOLVER, "SystemSolver", "driven_solution_get")
    ref = Ref(net, Partial(3))
    for seq_ in (orders, list(reversed(orders))):
        point = Partial(3)
        log = {}
        w, malgo, sol = build(prog, net, point, log)
        for rounds in (0, 1):
            for n in seq_:
                for rs, nodes in sorted(net.reads.items()):
                    got = published(w, w.call(sol, "driven_solution_get", C(rs), N=C(n)), "solution")
                    for x in nodes:
                        ctx.check(close(got.get(x, (0j,) * point.width), ref.driven(n, x)), "driven", "order %d of %s" % (n, net.title), at,
                                  "the solution at %s is not that of the system linearised at order %d" % (x, n - 1))


def check_default(ctx, prog, net, accepts, lin, solved=True):
    at = where(prog, SOLVER, "SystemSolver", "solve")
    point = Partial(3)
    ref = Ref(net, point)
    log = {}
    w, malgo, sol = build(prog, net, point, log)
    if solved:
        w.call(sol, "solve")
    for rounds in (0, 1):
        for rs, nodes in sorted(net.reads.items()):
            got = published(w, w.call(sol, "driven_solution_get", C(rs)), "solution")
            for x in nodes:
                ctx.check(any(close(got.get(x, (0j,) * point.width), ref.driven(n, x)) for n in accepts), "driven", "final solution of %s" % net.title, at,
                          "the published value at %s is not of order %s" % (x, "/".join(map(str, accepts))))
        for (ds, ins), (rs, outs) in itertools.product(sorted(net.drives.items()), sorted(net.reads.items())):
            b = w.call(sol, "coupling_solution_get", drive_set=C(ds), readout_set=C(rs))
            got = published(w, b, "coupling_matrix_inv")
            ok = [n for n in lin if all(close(got.get((i, o), (0j,) * point.width), ref.transfer(n, i, o)) for i in ins for o in outs)]
            ctx.check(bool(ok), "response", "response of %s" % net.title, where(prog, SOLVER, "SystemSolver", "coupling_solution_get"),
                      "responses %s to %s are not those of the system linearised at order %s" % (ds, rs, "/".join(map(str, lin))))


def nets():
    a, b, c, d, e, f = (("p%s" % x, "k") for x in "abcdef")
    a2, b2 = ("pa", "q"), ("pb", "q")
    sets = dict(drives={"AC": [a, c], "other": [b]}, reads={"AC": [b, d], "DC": [d], "all but one": [a, b, c]})
    yield Net("a linear loop with shared edges and sources", sources=[(a, "s1", ()), (a, "s2", ()), (b, "s3", ())],
              edges=[(a, b, "e1", ()), (a, b, "e2", ()), (a, b, "e3", ()), (b, c, "e4", ()), (c, a, "e5", ()), (c, d, "e6", ())], **sets)
    yield Net("edges that cancel", sources=[(a, "s1", ()), (c, C(0), ())], edges=[(a, b, "e1", ()), (b, c, C(0), ()), (c, d, "e2", ()), (a, d, "e3", ()), (b, b, C(0), ())], **sets)
    yield Net("bonds through adaptors", sources=[(a, "s1", ()), (a2, "s2", ())], edges=[(b, c, "e1", ()), (b2, c, "e2", ())],
              bonds=[("pa", "pb"), ("pc", "pd"), ("pa", "pe")], post=[("pa", "pa_post"), ("pa_post", "pa_post2")], pre=[("pb", "pb_pre"), ("pd", "pd_pre")],
              drives={"AC": [a, ("pa_post", "k")], "other": [a2]}, reads={"AC": [d, ("pd_pre", "k")], "DC": [b, e], "post": [("pa_post2", "q"), ("pb_pre", "q")]})
    sets2 = dict(drives={"AC": [a, c], "noise like": [f]}, reads={"AC": [b, e], "DC": [e, d]})
    yield Net("couplings vanishing at some frequencies", sources=[(a, "part0", ()), (b, "parts0", ()), (c, "s1", ())],
              edges=[(a, b, "part1", ()), (b, c, "parts1", ()), (c, d, "part2", ()), (c, d, "parts2", ()), (d, a, "e1", ())],
              blocks=[([c, d], [e], [(c, e, Fn("part3")), (d, e, Fn("parts3", (c,)))])], **sets2)
    yield Net("a product of fields", sources=[(a, "s1", ()), (b, "s2", ())], edges=[(a, c, "e1", ()), (e, a, "e2", ())], triplets=[(c, b, d, "t1"), (d, d, e, "t2"), (a, b, d, "t3")], **sets2)
    yield Net("couplings given by fields", sources=[(a, "s1", ()), (b, "s2", (c, c)), (f, "s3", (d,))],
              edges=[(a, c, "e1", ()), (a, d, "e2", (c,)), (a, d, "e3", ()), (d, e, "e4", (f, c)), (e, b, "e5", (b,)), (b, c, "e6", ())], **sets2)
    yield Net("a normalised product", sources=[(a, "s1", ()), (b, "s2", ()), (f, "s3", ())], edges=[(f, c, "e1", ())], norms=[(a, b, d, c, "t1")], triplets=[(d, a, e, "t2")],
              drives=dict(AC=[a, f]), reads=dict(AC=[d, e]))
    yield Net("a block coupling", sources=[(a, "s1", ()), (b, "s2", ())], edges=[(a, c, "e1", ()), (d, e, "e2", ()), (e, a, "e3", ())],
              blocks=[([a, b], [d, f], [(a, d, Fn("g1", (c,))), (b, d, Fn("g2")), (b, f, Fn("g3", (c, c))), (a, f, Fn(C(0)))])], **sets2)
    yield Net("a field needed by no coupling", sources=[(a, "s1", ())], edges=[(a, b, "e1", ()), (b, c, "e2", ())], forced=[c], drives=dict(AC=[b]), reads=dict(AC=[a, c], DC=[c]))
    yield Net("a chain of dependent couplings", sources=[(a, "s1", ()), (c, "s2", (b,)), (e, "s3", (d, b))], edges=[(a, b, "e1", ()), (c, d, "e2", (b,)), (e, f, "e3", (d,)), (f, b, "e4", (e,))], **sets2)


# ---------------------------------------------------------------- convergence
class Num(Value):
    """a small array at a generic point"""

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return "Num%s" % (self.v,)

    def __eq__(self, o):
        return isinstance(o, Num) and o.v == self.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.v)

    def binop(self, it, op, other, swapped):
        if other[0] != "const":
            return None
        b = other[1].v if isinstance(other[1], Num) else (complex(other[1]),) * len(self.v)
        f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}.get(op)
        a = self.v * len(b) if len(self.v) == 1 else self.v
        b = b * len(a) if len(b) == 1 else b
        if f is None or len(b) != len(a):
            return None
        return C(Num(f(y, x) if swapped else f(x, y) for x, y in zip(a, b)))

    def item(self, it, key):
        m = mask(key, len(self.v))
        return C(Num(x for x, k in zip(self.v, m) if k))


def values(t, n):
    if t[0] == "const":
        return t[1].v if isinstance(t[1], Num) else (complex(t[1]),) * n
    raise NotAlgebraic("not a number: %s" % show(t)[:60])


def mask(t, n):
    if t[0] == "bin" and t[1] in "&|":
        a, b = mask(t[2], n), mask(t[3], n)
        return [(x and y) if t[1] == "&" else (x or y) for x, y in zip(a, b)]
    if t[0] in ("and", "or"):
        ms = [mask(x, n) for x in t[1]]
        return [(all if t[0] == "and" else any)(x) for x in zip(*ms)]
    if t[0] in ("not",) or (t[0] == "un" and t[1] == "~"):
        return [not x for x in mask(t[-1], n)]
    if t[0] == "cmp":
        f = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x.real < y.real, "<=": lambda x, y: x.real <= y.real,
             ">": lambda x, y: x.real > y.real, ">=": lambda x, y: x.real >= y.real}.get(t[1])
        if f:
            return [f(x, y) for x, y in zip(values(t[2], n), values(t[3], n))]
    raise NotAlgebraic("not a mask: %s" % show(t)[:60])


def convergence(ctx, prog, title, prev, now):
    at = where(prog, SOLVER, "SystemSolver", "delta_v_compute")

    def truth(it, c):
        if c[0] == "not":
            v = truth(it, c[1])
            return None if v is None else not v
        if c[0] == "cmp" and all(x[0] == "const" for x in c[2:]) and any(isinstance(x[1], Num) for x in c[2:]):
            m = mask(c, max(len(x[1].v) for x in c[2:] if isinstance(x[1], Num)))
            if len(m) != 1:
                raise NotAlgebraic("truth of an array")
            return m[0]
        return None

    def calls(w, func, args, kw):
        name = func[2] if func[0] == "attr" else func[1].split(".")[-1] if func[0] == "global" else None
        vs = [a[1].v if a[0] == "const" and isinstance(a[1], Num) else (complex(a[1]),) if a[0] == "const" and isinstance(a[1], (int, float, complex)) else None for a in args]
        if None in vs or not vs:
            return None
        if name in ("asarray", "array", "asanyarray", "atleast_1d"):
            return C(Num(vs[0]))
        if name in ("abs", "absolute"):
            return C(Num(abs(x) for x in vs[0]))
        if name in ("maximum", "minimum") and len(vs) == 2:
            n = max(map(len, vs))
            f = max if name == "maximum" else min
            return C(Num(f(x.real, y.real) for x, y in zip(*(v * n if len(v) == 1 else v for v in vs))))
        if name in ("max", "amax", "min", "amin", "sum", "mean") and len(vs) == 1 and vs[0]:
            f = dict(max=max, amax=max, min=min, amin=min, sum=sum, mean=lambda z: sum(z) / len(z))[name]
            return C(Num([f([x.real for x in vs[0]])]))
        if name in ("max", "min") and len(vs) == 2:
            return C(Num([(max if name == "max" else min)(v[0].real for v in vs)]))
        if name == "len":
            return C(len(vs[0]))
        return None
    vals = [{k: Num(v) for k, v in d.items()} for d in (prev, now)]
    w = World(prog, exact=True, objects=(), calls=calls, decide=truth)
    plain = w.it.builtin

    def builtin(name, args, kwargs, node):
        r = calls(w, ("global", name), args, kwargs)
        return r if r is not None else plain(name, args, kwargs, node)
    w.it.builtin = builtin
    sol = w.it.fresh(w.cls(SOLVER, "SystemSolver"))
    r = w.call(sol, "delta_v_compute", *[w.dict([(C(k), C(v)) for k, v in d.items()]) for d in vals])
    got = r[1][0][1] if r[0] == "tuple" else None
    got = got.v[0] if isinstance(got, Num) else complex(got)
    want = 0.
    for k, v in now.items():
        for x, y in zip(v, prev.get(k, (0,) * len(v))):
            if max(abs(x), abs(y)) > 1e-15:
                want = max(want, abs(x - y) / max(abs(x), abs(y)))
    ctx.check(abs(got - want) < 1e-9, "converged", title, at, "the change between solutions is %.3g, reported %.3g" % (want, got.real))


CHANGES = [
    ("a first solution", {}, {"a": (1 + 1j, 2 + 0j)}),
    ("one of two values changes", {"a": (1 + 1j, 2 + 0j), "b": (3 + 0j, 3 + 1j)}, {"a": (1.5 + 1j, 2 + 0j), "b": (3 + 0j, 3 + 1j)}),
    ("the last of two values changes", {"a": (1 + 1j, 2 + 0j), "b": (3 + 0j, 3 + 1j)}, {"a": (1 + 1j, 2 + 0j), "b": (3 + 0j, 3 - 1j)}),
    ("a phase changes", {"a": (1 + 1j,)}, {"a": (1 - 1j,)}),
    ("a value shrinks", {"a": (4 + 0j,)}, {"a": (1 + 0j,)}),
    ("a value vanishes", {"a": (4 + 0j, 1 + 0j)}, {"a": (0j, 1 + 0j)}),
    ("small and large values", {"a": (1e-6 + 0j,), "b": (1e6 + 0j,)}, {"a": (2e-6 + 0j,), "b": (1.1e6 + 0j,)}),
    ("a weak field among strong ones", {"a": (1e-11 + 0j,), "b": (1e3 + 0j,)}, {"a": (1.5e-11 + 0j,), "b": (1e3 + 0j,)}),
    ("weak fields alone", {"a": (2e-10 + 1e-11j, 0j)}, {"a": (2e-10 - 1e-11j, 0j)}),
    ("nothing changes", {"a": (1 + 1j, 0j)}, {"a": (1 + 1j, 0j)}),
    ("rounding errors of vanishing values", {"a": (1e-19 + 0j, 1 + 0j)}, {"a": (-1e-19 + 0j, 1 + 0j)}),
]


def scenario(ctx, prog, f, net, *a):
    title = net.title if isinstance(net, Net) else net
    try:
        f(ctx, prog, net, *a)
    except SurelyFails as ex:
        ctx.fail("works", title, where(prog, SOLVER, "SystemSolver", "solve"), "solving fails: %s" % ex)
    except Inconsistent as ex:
        ctx.fail("consistent", title, where(prog, SOLVER, "SystemSolver", "_edge_matrix_generate"), "the linear solver is given %s" % ex)
    except AnalysisBroken:
        raise
    except BAD as ex:
        import os, traceback
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
        ctx.undecided("%s: %s %s" % (title, type(ex).__name__, str(ex)[:160]))


def run(ctx):
    prog = ctx.prog
    for net in nets():
        scenario(ctx, prog, check_driven, net, [1, 2, 3])
    for net in nets():
        net.exact = 2
        scenario(ctx, prog, check_default, net, [2, 3], [2])
        scenario(ctx, prog, check_default, net, [2, 3], [2], False)
    for net in nets():
        net.epsilon = 3
        scenario(ctx, prog, check_default, net, [3, 4], [2, 3])
    for title, prev, now in CHANGES:
        scenario(ctx, prog, convergence, title, prev, now)
