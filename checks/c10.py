"""C10: the graph solvers return the exact solution of the linear system."""
from types import SimpleNamespace
import itertools

from sa.algebra import NotAlgebraic
from sa.evalterm import Point
from sa.interp import C, NONE, FALSE, TRUE, SurelyFails, show, walk
from sa.loader import AnalysisBroken
from sa.objects import World, Unreadable

IMPL = "phasor.matrix.DAG_algorithm_impl"
DAG = "phasor.matrix.DAG_algorithm"
GRAPH = "phasor.matrix.graph_algorithm"
SPARSE = "phasor.matrix.scisparse_algorithm"
BAD = (NotAlgebraic, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, Unreadable, StopIteration, ArithmeticError)

EXPLANATION = (
    "Every elimination, pivot and reflection routine is analysed as a transformer of small graphs whose edges are abstract arrays; the "
    "graph left in the containers must have the same transfer from every source to every output as the graph given, with consistent "
    "adjacency sets and no stale edge. The drivers are analysed for the order and preconditions of the routines they call, the entry "
    "points for the system they set up (sign, unit sources, outputs) and for the results they unpack, the purges for keeping every node "
    "between a source and an output.")

ASSUMPTIONS = ["small graphs stand for all graphs: the routines treat nodes only through equality and set membership",
               "nodes that receive or drive nothing are not part of the system"]

SETS = ("global", "builtins.set")
VAC = C("VACUUM")


class Graph:
    """nodes; edges, alpha (source -> node), beta (node -> output), direct (source -> output) as sets of pairs"""

    def __init__(self, nodes, edges, alpha=(), beta=(), direct=(), zero=()):
        self.nodes, self.edges, self.alpha, self.beta, self.direct = nodes, set(edges), set(alpha), set(beta), set(direct)
        self.zero = set(zero)

    def all(self):
        return self.edges | self.alpha | self.beta | self.direct


def T(x):
    """node name -> term"""
    return ("tuple", tuple(C(y) for y in x)) if isinstance(x, tuple) else C(x)


def atom(e, tag="e"):
    return ("sym", "%s[%s>%s]" % (tag, e[0], e[1]))


def setdict(w, pairs, keys, default=True):
    d = w.it.new_heap("dict")
    h = w.it.heap[d[1]]
    if default:
        h.default = SETS
    for k in keys:
        h.items.append((T(k), w.set([T(y) for x, y in pairs if x == k]), (), ()))
    return d


def rev(pairs):
    return sorted((b, a) for a, b in pairs)


def build(w, g, value=atom, tag="e"):
    """-> dict of the five containers"""
    srcs = sorted(set(a for a, b in g.alpha | g.direct))
    outs = sorted(set(b for a, b in g.beta | g.direct))
    return dict(
        seq=setdict(w, sorted(g.edges), g.nodes),
        req=setdict(w, rev(g.edges), g.nodes),
        req_alpha=setdict(w, rev(g.alpha | g.direct), sorted(set(b for a, b in g.alpha | g.direct))),
        seq_beta=setdict(w, sorted(g.beta | g.direct), sorted(set(a for a, b in g.beta | g.direct))),
        edge_map=w.dict([(("tuple", (T(a), T(b))), value((a, b))) for a, b in sorted(g.all())]))


def srabe(st):
    return ("tuple", (st["seq"], st["req"], st["req_alpha"], st["seq_beta"], st["edge_map"]))


def plainname(t):
    if t[0] == "const":
        return t[1]
    if t[0] == "tuple":
        return tuple(plainname(x) for x in t[1])
    raise NotAlgebraic("not a node: %s" % show(t)[:60])


def live(point, guards):
    return all(point.cond(g) for g in guards)


def read_sets(w, d, point):
    out = {}
    for k, v, g in w.entries(d):
        if not live(point, g):
            continue
        if v[0] == "ite":
            v = v[2] if point.cond(v[1]) else v[3]
        c = [(x, (), ()) for x in v[1]] if v[0] == "set" else w.it.iter_concrete(v)
        if c is None or any(l for _, l, _ in c):
            raise Unreadable("open set")
        out[plainname(k)] = set(plainname(t) for t, _, gg in c if live(point, gg))
    return out


def read_map(w, d, point):
    return {plainname(k): point.vec(point(w.it.reify(v))) for k, v, g in w.entries(d) if live(point, g)}


class State:
    def __init__(self, w, st, point):
        self.seq, self.req, self.ra, self.sb = (read_sets(w, st[x], point) for x in ("seq", "req", "req_alpha", "seq_beta"))
        self.e = read_map(w, st["edge_map"], point)

    def pairs(self):
        """-> (internal, alpha, beta, direct) edge sets"""
        nodes = set(self.seq) | set(self.req)
        internal = set((a, b) for a, s in self.seq.items() for b in s)
        alpha = set((a, b) for b, s in self.ra.items() for a in s if b in nodes)
        beta = set((a, b) for a, s in self.sb.items() for b in s if a in nodes)
        direct = set((a, b) for a, s in self.sb.items() for b in s if a not in nodes)
        return nodes, internal, alpha, beta, direct


def consistent(s, over=None):
    """None or what is wrong with the adjacency sets"""
    nodes, internal, alpha, beta, direct = s.pairs()
    back = set((a, b) for b, ss in s.req.items() for a in ss)
    if internal != back:
        return "successor and predecessor sets differ at %s" % sorted(internal ^ back, key=str)[:3]
    direct |= set((a, b) for a, b in s.e if a not in nodes and b not in nodes)
    want = internal | alpha | beta | direct
    have = set(s.e)
    if over is not None:
        if not want <= over:
            return "no value for edge %s" % sorted(want - over, key=str)[:3]
        return None
    if want != have:
        return "%s" % "; ".join(["edge %s in the sets without value" % (x,) for x in sorted(want - have, key=str)[:2]] +
                                ["stale edge %s" % (x,) for x in sorted(have - want, key=str)[:2]])
    return None


def solve(A, b):
    n = len(A)
    M = [list(A[i]) + [b[i]] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(M[r][i]))
        if abs(M[p][i]) < 1e-13:
            raise ZeroDivisionError
        M[i], M[p] = M[p], M[i]
        for r in range(n):
            if r != i:
                f = M[r][i] / M[i][i]
                if f:
                    M[r] = [x - f * y for x, y in zip(M[r], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]


def transfer(nodes, edges, alpha, beta, e, k, form, srcs, outs):
    """source -> output transfer; form 'A': D - B A^-1 a, form 'M': D + B (1 - M)^-1 a"""
    ns = sorted(nodes, key=str)
    idx = {n: i for i, n in enumerate(ns)}
    A = [[0j] * len(ns) for _ in ns]
    for a, b in edges:
        A[idx[b]][idx[a]] = e[a, b][k]
    if form == "M":
        A = [[(1 if i == j else 0) - A[i][j] for j in range(len(ns))] for i in range(len(ns))]
    out = {}
    for s in srcs:
        rhs = [0j] * len(ns)
        for a, b in alpha:
            if a == s:
                rhs[idx[b]] += e[a, b][k]
        x = solve(A, rhs) if ns else []
        for o in outs:
            t = sum(e[a, b][k] * x[idx[a]] for a, b in beta if b == o)
            out[s, o] = (e[s, o][k] if (s, o) in e else 0) + (-t if form == "A" else t)
    return out


def given(g, st_atoms, point, form, k):
    e = {p: point.vec(point(st_atoms(p))) for p in g.all()}
    srcs = sorted(set(a for a, b in g.alpha | g.direct), key=str)
    outs = sorted(set(b for a, b in g.beta | g.direct), key=str)
    return transfer(g.nodes, g.edges, g.alpha, g.beta, e, k, form, srcs, outs), srcs, outs


def close(a, b):
    return all(abs(a[k] - b[k]) <= 1e-7 * max(1, abs(a[k]), abs(b[k])) for k in a)


# ---------------------------------------------------------------- elimination steps
def graphs():
    N = ["a", "b", "c", "n"]
    full = [(x, y) for x in N for y in N]
    src = [("s", "n"), ("t", "n"), ("s", "a"), ("t", "c")]
    out = [("n", "p"), ("n", "q"), ("b", "p"), ("c", "q")]
    ring = [("n", "n"), ("a", "n"), ("b", "n"), ("n", "b"), ("n", "c"), ("b", "b"), ("a", "a"), ("c", "c"), ("c", "a"), ("a", "b")]
    yield "a fully coupled graph", Graph(N, full, src, out, [("s", "p"), ("t", "q")])
    yield "a sparse graph", Graph(N, ring, src, out)
    yield "a sparse graph with direct transfers", Graph(N, ring, src, out, [("s", "q")])
    yield "a graph driven at the node", Graph(N, ring, [("s", "n")], [("b", "p"), ("n", "q")])
    yield "a graph read at the node", Graph(N, ring, [("s", "a"), ("t", "b")], [("n", "p")])
    yield "a single node", Graph(["n"], [("n", "n")], [("s", "n")], [("n", "p")])
    yield "a node read and driven elsewhere", Graph(N, ring, [("s", "b")], [("a", "q")])


def points(g):
    """random points, and one where all but the given node's neighbourhood vanishes in half of the entries"""
    yield Point(1)
    yield Point(2)
    p = Point(3)
    for (a, b) in g.edges:
        if a != b and "n" not in (a, b):
            v = p.atom(atom((a, b)))
            p.atoms[atom((a, b))] = (0j,) + v[1:]
    yield p
    p = Point(4)
    for (a, b) in g.edges:
        if a != b and "n" not in (a, b):
            p.atoms[atom((a, b))] = (0j,) * p.width
    for a, b in sorted(g.edges):
        if a == b and a != "n":
            v = p.atom(atom((a, b)))
            p.atoms[atom((a, b))] = v[:-1] + (0j,)
    yield p


def step(ctx, prog, name, where, g, run, form="A", gone=("n",), atoms=None, world=None):
    """run(w, st) transforms the containers; the transfer must not change"""
    w = world or World(prog, exact=True)
    st = build(w, g)
    run(w, st)
    label = "%s on %s" % name
    res = {}
    for i, p in enumerate(points(g)):
        try:
            s = State(w, st, p)
        except ZeroDivisionError:
            continue
        bad = consistent(s)
        if bad:
            res.setdefault("structure", bad)
            continue
        nodes, internal, alpha, beta, direct = s.pairs()
        left = set(x for x in gone if any(x in pair for pair in s.e))
        if left:
            res.setdefault("structure", "edges of %s remain" % sorted(left))
            continue
        for k in range(p.width):
            try:
                ref, srcs, outs = given(g, atom, p, form, k)
                got = transfer(nodes, internal, alpha, beta, s.e, k, form, srcs, outs)
            except ZeroDivisionError:
                continue
            if not close(ref, got):
                res.setdefault("transfer", "transfer changes at %s" % sorted(x for x in ref if not close({0: ref[x]}, {0: got[x]})))
    ctx.check("structure" not in res, "structure", label, where, res.get("structure", ""))
    if "structure" not in res:
        ctx.check("transfer" not in res, "transfer", label, where, res.get("transfer", ""))
    return w, st


def kwcall(w, module, fname, **kw):
    w.func(module, fname, **kw)


def where_of(prog, module, fname):
    m, n = prog.get_func(module, fname)
    return "%s:%d" % (m.path, n.lineno)


def steps(ctx, prog):
    inv = lambda w: w.it.new_heap("set")
    for title, g in graphs():
        attempt(ctx, "reduceLU", step, ctx, prog, ("elimination of a node", title), where_of(prog, IMPL, "reduceLU"), g,
                lambda w, st: kwcall(w, IMPL, "reduceLU", SRABE=srabe(st), node=C("n"), node_costs_invalid_in_queue=inv(w)))
    pivots = [x for x in graphs() if len(x[1].nodes) > 1]
    src, out = [("s", "n"), ("t", "n"), ("s", "a"), ("t", "c")], [("n", "p"), ("n", "q"), ("b", "p"), ("c", "q")]
    pivots += [("a graph without self couplings of the swapped nodes", Graph(["a", "b", "c", "n"], [("n", "a"), ("a", "n"), ("b", "n"), ("n", "b"), ("n", "c"), ("c", "c"), ("c", "a"), ("a", "b")], src, out)),
               ("a graph without self coupling of one swapped node", Graph(["a", "b", "c", "n"], [("n", "n"), ("n", "a"), ("a", "n"), ("b", "b"), ("n", "b"), ("c", "c"), ("n", "c"), ("b", "c")], src, out)),
               ("a graph without self coupling of the node", Graph(["a", "b", "c", "n"], [("a", "a"), ("n", "a"), ("a", "n"), ("n", "b"), ("b", "n"), ("b", "b"), ("c", "c"), ("c", "b"), ("a", "c")], src, out))]
    for fn, what in (("pivotCOL_OP", "column swap"), ("pivotROW_OP", "row swap")):
        for title, g in pivots:
            for other in ("a", "b"):
                attempt(ctx, fn, step, ctx, prog, ("%s of n and %s" % (what, other), title), where_of(prog, IMPL, fn), g,
                        lambda w, st, fn=fn, other=other: kwcall(w, IMPL, fn, SRABE=srabe(st), node1=C("n"), node2=C(other), node_costs_invalid_in_queue=inv(w)), gone=())
    for fn, what in (("householderREFL_ROW_OP", "row"), ("householderREFL_COL_OP", "column")):
        for title, g in pivots:
            near = sorted(a if what == "row" else b for a, b in g.edges if (b if what == "row" else a) == "n" and a != b)
            for k in (1, 2):
                if len(near) < k or ("n", "n") not in g.edges:
                    continue
                attempt(ctx, fn, step_refl, ctx, prog, ("reflection of %s entries %s" % (what, near[:k]), title), where_of(prog, IMPL, fn), g, fn, what, near[:k])


def step_refl(ctx, prog, name, where, g, fn, what, near):
    w = World(prog, exact=True)
    w, st = step(ctx, prog, name, where, g, lambda w, st: kwcall(w, IMPL, fn, SRABE=srabe(st), node_into=C("n"), nodes_from=w.set([C(x) for x in near]),
                                                                 node_costs_invalid_in_queue=w.it.new_heap("set")), gone=(), world=w)
    s = State(w, st, Point(1))
    left = [x for x in near if ((x, "n") if what == "row" else ("n", x)) in s.e]
    ctx.check(not left, "zeroed", "%s on %s" % name, where, "entries of %s remain" % left)


# ---------------------------------------------------------------- choice of operations
class Choices:
    """abstract outcomes of the comparisons of magnitudes, enumerated over repeated analyses"""

    def __init__(self):
        self.script, self.taken, self.memo = [], [], {}

    def start(self):
        self.taken, self.memo = [], {}

    def decide(self, it, c):
        flip = False
        while c[0] == "not" or (c[0] == "call" and c[1][0] == "global" and c[1][1].split(".")[-1] in ("any", "all") and len(c[2]) == 1):
            flip ^= c[0] == "not"
            c = c[1] if c[0] == "not" else c[2][0]
        if c[0] == "const":
            return bool(c[1]) != flip
        if c[0] == "cmp" and c[1] == "==" and C(0) in c[2:]:
            return None
        if c[0] == "cmp" and c[1] == "in":
            return None
        if c[0] in ("and", "or"):
            v = [self.decide(it, x) for x in c[1]]
            if None in v:
                return None
            return (all(v) if c[0] == "and" else any(v)) != flip
        if c[0] == "call" and c[1][0] == "global" and c[1][1].endswith("isfinite"):
            return not flip
        if c not in self.memo:
            i = len(self.taken)
            self.memo[c] = self.script[i] if i < len(self.script) else True
            self.taken.append(self.memo[c])
        return self.memo[c] != flip

    def advance(self):
        t = list(self.taken)
        while t and not t[-1]:
            t.pop()
        if not t:
            return False
        self.script = t[:-1] + [False]
        return True


def numpy_calls(ch):
    def calls(w, func, args, kw):
        name = func[1].split(".")[-1] if func[0] == "global" else None
        if name in ("array", "asarray") and args and args[0][0] == "obj":
            return args[0]
        if name in ("count_nonzero", "nonzero", "any", "all", "isfinite") and args and args[0][0] == "obj":
            xs = [w.it.as_cond(x) for x in w.elems(args[0])]
            if name == "isfinite":
                return TRUE
            v = [x[1] if x[0] == "const" else ch.decide(w.it, x) for x in xs]
            if None in v:
                return None
            if name == "count_nonzero":
                return C(sum(v))
            if name == "nonzero":
                return ("tuple", (w.list([C(i) for i, x in enumerate(v) if x]),))
            return C(any(v) if name == "any" else all(v))
        if name in ("isfinite",):
            return TRUE
        return None
    return calls


def choose(ctx, prog, fn, what, title, g, limit=40):
    """every combination of large and small entries: the transfer is kept and the node eliminated on a large entry"""
    ch = Choices()
    where = where_of(prog, IMPL, fn)
    n = 0
    while n < limit:
        ch.start()
        pivots = []
        w = World(prog, exact=True, decide=ch.decide, calls=numpy_calls(ch))

        def seen(world, args, kw):
            kw = dict(kw)
            node = kw.get("node", args[1] if len(args) > 1 else None)
            sr = kw.get("SRABE", args[0] if args else None)
            if node == C("n") and sr is not None and not pivots:
                em = world.it.get_item(sr, C(4))
                pivots.append(world.it.get_item(em, ("tuple", (node, node))))
            return None
        w.fns["reduceLU"] = seen
        st = build(w, g)
        run = lambda w, st: kwcall(w, IMPL, fn, SRABE=srabe(st), node=C("n"), node_costs_invalid_in_queue=w.it.new_heap("set"))
        name = ("elimination by %s, choice %d," % (what, n), title)
        sub = Quiet()
        err = None
        try:
            step(sub, prog, name, where, g, run, world=w)
        except (SurelyFails,) + BAD as e:
            err = e
        large = [x for x in sorted(g.edges) if any(v and sized(c, x) for c, v in ch.memo.items())]
        if any(x[1 if what == "row" else 0] == "n" for x in large):
            if isinstance(err, SurelyFails):
                ctx.fail("runs", "%s on %s" % name, where, "raises %s" % err)
            elif err is not None:
                ctx.undecided("%s: %s: %s" % (name[0], type(err).__name__, str(err)[:100]))
            else:
                sub.to(ctx)
            if pivots:
                p = pivots[0]
                ok = p[0] != "sym" or any(p == atom(x) for x in large)
                ctx.check(ok, "pivot size", "%s on %s" % name, where, "eliminates on %s while the large entries are those of %s" % (show(p), large))
        n += 1
        if not ch.advance():
            break
    return n


def sized(c, e):
    """the comparison puts edge e among the large entries"""
    if c[0] != "cmp" or c[1] not in ("<", "<="):
        return False
    big = c[3]
    return ("bin", "/", atom(e)) == big[:3] or any(x[:3] == ("bin", "/", atom(e)) for x in walk(big) if x and x[0] == "bin")


class Quiet:
    """obligations kept aside until it is known whether the case can occur"""

    def __init__(self):
        self.out = []

    def check(self, *a):
        self.out.append(a)
        return a[0]

    def to(self, ctx):
        for a in self.out:
            ctx.check(*a)


def case_of(args):
    return " ".join(str(x) for x in args if isinstance(x, str) or (isinstance(x, tuple) and all(isinstance(y, str) for y in x)))[:120]


def attempt(ctx, what, f, *a, **k):
    try:
        return f(*a, **k)
    except AnalysisBroken:
        raise
    except SurelyFails as e:
        ctx.fail("runs", "%s %s" % (what, case_of(a)), "phasor/matrix", "raises %s" % e)
    except BAD as e:
        ctx.undecided("%s: %s: %s" % (what, type(e).__name__, str(e)[:150]))


def choices(ctx, prog):
    N = ["a", "b", "n"]
    shapes = [("a dense graph", Graph(N, [(x, y) for x in N for y in N], [("s", "n"), ("s", "a")], [("n", "p"), ("b", "p")])),
              ("a graph without self edge", Graph(N, [("a", "n"), ("b", "n"), ("n", "a"), ("n", "b"), ("a", "a"), ("b", "b")], [("s", "n")], [("n", "p"), ("b", "p")])),
              ("a graph with one neighbour", Graph(["a", "n"], [("a", "n"), ("n", "a"), ("n", "n"), ("a", "a")], [("s", "n")], [("a", "p")]))]
    for fn, what in (("reduceLUQ_row", "row"), ("reduceLUQ_col", "column")):
        for title, g in shapes:
            attempt(ctx, fn, choose, ctx, prog, fn, what, title, g)


# ---------------------------------------------------------------- whole solves
QUEUE = ("sym", "queue")


class Queue:
    """an abstract priority queue: any waiting node may come next, as a policy says"""

    def __init__(self, policy):
        self.items, self.policy = [], policy

    def decide(self, inner):
        def f(it, c):
            if c == QUEUE:
                return bool(self.items)
            if c == ("not", QUEUE):
                return not self.items
            if any(x in (QUEUE, ("sym", "cost")) for x in walk(c)):
                return False
            if c[0] == "call" and c[1][0] == "global" and c[1][1].endswith("all") and c[2] and c[2][0][0] == "cmp" and c[2][0][1] == "==":
                return False
            return inner(it, c)
        return f

    def calls(self, inner):
        def f(w, func, args, kw):
            if func[0] == "attr" and func[1] == QUEUE:
                name = func[2]
                if name == "push":
                    self.items.append(args[0])
                    return NONE
                if name == "pushpop":
                    self.items.append(args[0])
                if name in ("pop", "pushpop"):
                    if not self.items:
                        raise Unreadable("pop from an empty queue")
                    self.items.sort(key=lambda t: show(t[1][1]))
                    i = self.policy(len(self.items))
                    t = self.items.pop(i)
                    return ("tuple", (("sym", "cost"), t[1][1]))
                if name == "__len__":
                    return C(len(self.items))
            if func[0] == "global" and func[1] == "builtins.len" and args[0] == QUEUE:
                return C(len(self.items))
            return inner(w, func, args, kw)
        return f


def solve_world(prog, policy, good, point):
    """point: a generic assignment of the entries; a test the entries alone decide goes the way it goes there"""
    q = Queue(policy)
    ch = Choices()

    def inner(it, c):
        s = show(c)
        if "sym queue" in s or "sym cost" in s:
            return False
        if c[0] == "cmp" and c[1] in ("<", "<=") and any(x == C(100) for x in c[2:]):
            return good if c[1] == "<=" and c[3] == C(100) else not good
        try:
            return point.cond(it.reify(c))
        except (NotAlgebraic, Unreadable, ZeroDivisionError, OverflowError, KeyError, TypeError, AttributeError):
            return ch.decide(it, c)

    def new(it, qual, args, kw, node):
        n = qual.split(":")[-1]
        if n == "DictKey":
            return VAC
        if n == "HeapPriorityQueue":
            return QUEUE
        return None
    ch.start()
    return World(prog, exact=True, decide=q.decide(inner), calls=q.calls(numpy_calls(SimpleNamespace(decide=inner))), new_hook=new)


def system():
    """a system with a loop, a node nothing reaches and a node nothing reads"""
    N = ["a", "b", "c", "d", "u", "z"]
    E = [("a", "b"), ("b", "c"), ("c", "a"), ("b", "b"), ("c", "d"), ("d", "b"), ("u", "a"), ("d", "z"), ("z", "z")]
    return N, E


def matrix_edges(N, E):
    return {e: atom(e) for e in E}


def whole(ctx, prog, module, title, policy, good, scattering, negative, purge, inputs=("a", "d"), outputs=("c", "d", "b"), srcs=True):
    N, E = system()
    if not scattering:
        E = E + [(n, n) for n in N if (n, n) not in E]
    g = Graph(N, E)
    point = Point(11, width=3)
    w = solve_world(prog, policy, good, point)
    seq, req = setdict(w, sorted(E), N), setdict(w, rev(E), N)
    em = w.dict([(("tuple", (C(a), C(b))), atom((a, b))) for a, b in E])
    sources = {"a": ("sym", "src a"), "c": ("sym", "src c")} if srcs else None
    kw = dict(seq=seq, req=req, edge_map=em, outputs_set=w.set([C(x) for x in outputs]), inputs_set=w.set([C(x) for x in inputs]),
              inputs_map=w.dict([(C(k), v) for k, v in sources.items()]) if sources else NONE, scattering=C(scattering), negative=C(negative),
              purge_in=C(purge), purge_out=C(purge))
    r = w.func(module, "inverse_solve_inplace", **kw)
    where = where_of(prog, module, "inverse_solve_inplace")
    label = "%s, %s" % (title, " ".join(x for x in ("scattering" if scattering else "matrix", "negative" if negative else "", "" if purge else "unpurged",
                                                    "all eliminated directly" if good else "all eliminated with reflections") if x))
    judge(ctx, w, r, point, label, where, N, E, sources, scattering, negative, inputs, outputs)


def judge(ctx, w, r, p, label, where, N, E, sources, scattering, negative, inputs, outputs):
    """the result against the solution of (1 - M) x = s, or of M x = s"""
    f = fields(w, r)
    bad = {}
    om = read_map(w, f["outputs_map"], p) if sources else {}
    inv = read_map(w, f["edge_map"], p)
    iseq = read_sets(w, f["seq"], p)
    ireq = read_sets(w, f["req"], p)
    for k in range(p.width):
        e = {x: p(atom(x)) for x in E}
        sign = -1 if negative else 1
        for s in list(inputs) + ([VAC] if sources else []):
            ns = N
            A = [[((1 if i == j else 0) if scattering else 0) + (-1 if scattering else 1) * (e[a, b][k] if (a, b) in e else 0)
                  for j, a in enumerate(ns)] for i, b in enumerate(ns)]
            rhs = [(p(sources[n])[k] if n in sources else 0) if s == VAC else (1 if n == s else 0) for n in ns]
            x = solve(A, rhs)
            for o in outputs:
                want = sign * x[ns.index(o)]
                if s == VAC:
                    have = om.get(o, (0,) * p.width)[k]
                    what = "driven solution at %s" % o
                else:
                    have = inv.get((s, o), (0,) * p.width)[k]
                    what = "transfer from %s to %s" % (s, o)
                    if abs(want) > 1e-9 and ((s, o) not in inv or o not in iseq.get(s, ()) or s not in ireq.get(o, ())):
                        bad.setdefault("listed", "%s is not listed" % what)
                if abs(want - have) > 1e-7 * max(1, abs(want)):
                    bad.setdefault("solution", "%s wrong" % what)
    ctx.check(not bad, "solution", label, where, "; ".join(bad.values()))


# ---------------------------------------------------------------- the sparse driver
class Sparse:
    """numpy and scipy as the sparse driver uses them, on a point: a triplet matrix is summed, a system solved"""

    def __init__(self, point, indices):
        self.point, self.indices, self.matrices = point, indices, {}

    def ints(self, w, t):
        return [x[1] for x in w.elems(t)]

    def calls(self, inner):
        def f(w, func, args, kw):
            kw = dict(kw)
            if func[0] == "attr" and func[2] in ("ravel", "flatten", "toarray", "todense", "tocsc", "tocsr"):
                return None
            name = func[1].split(".")[-1].split(":")[-1] if func[0] == "global" else None
            if name == "broadcast_arrays":
                return w.list(list(args))
            if name in ("common_type", "result_type"):
                return ("sym", "dtype")
            if name in ("asarray", "asanyarray", "array") and args and args[0][0] != "obj":
                return args[0]
            if name == "ndindex":
                return w.list([("tuple", tuple(C(i) for i in ix)) for ix in self.indices])
            if name in ("zeros_like", "zeros"):
                return w.dict([])
            if name in ("csc_matrix", "csr_matrix", "coo_matrix"):
                t = args[0]
                data, rc = t[1]
                rows, cols = self.ints(w, rc[1][0]), self.ints(w, rc[1][1])
                n, m = (x[1] for x in (kw.get("shape") or args[1])[1])
                A = [[0] * m for _ in range(n)]
                data = w.elems(data)
                if not len(rows) == len(cols) == len(data):
                    raise SurelyFails("matrix entries of unequal number")
                for r, c, d in zip(rows, cols, data):
                    if not (0 <= r < n and 0 <= c < m):
                        raise SurelyFails("matrix index out of range")
                    A[r][c] += self.value(w, d)
                s = ("sym", "matrix %d" % len(self.matrices))
                self.matrices[s] = A
                w.it.store[(s, "ndim")] = C(2)
                w.it.store[(s, "shape")] = ("tuple", (C(n), C(m)))
                return s
            if name == "spsolve":
                A, B = self.matrices[args[0]], self.matrices[args[1]]
                if len(A) != len(B) or len(A) != len(A[0]):
                    raise SurelyFails("matrix shapes do not fit")
                cols = [solve(A, [b[j] for b in B]) for j in range(len(B[0]))]
                if len(cols) == 1:
                    return w.list([C(v) for v in cols[0]])
                s = ("sym", "solution %d" % len(self.matrices))
                self.matrices[s] = None
                ptr, idx, data = [0], [], []
                for c in cols:
                    for i, v in enumerate(c):
                        if v != 0:
                            idx.append(C(i))
                            data.append(C(v))
                    ptr.append(len(idx))
                w.it.store[(s, "indptr")] = w.list([C(i) for i in ptr])
                w.it.store[(s, "indices")] = w.list(idx)
                w.it.store[(s, "data")] = w.list(data)
                return s
            if name == "nonzero" and args and args[0][0] == "obj":
                xs = w.elems(args[0])
                if all(x[0] == "const" for x in xs):
                    return ("tuple", (w.list([C(i) for i, x in enumerate(xs) if x[1] != 0]),))
            return inner(w, func, args, kw)
        return f

    def value(self, w, t):
        t = w.it.reify(t)
        ix = ()
        if t[0] == "item" and t[2][0] == "tuple":
            t, ix = t[1], tuple(x[1] for x in t[2][1])
        v = self.point.vec(self.point(t))
        return v[ix[0] if ix else 0]


def sparse(ctx, prog, scattering, negative, sources, indices, inputs=("a", "d"), outputs=("c", "d", "b")):
    point = Point(11, width=max(1, len(indices)))
    sp = Sparse(point, indices)
    N, E = system()
    if not scattering:
        E = E + [(n, n) for n in N if (n, n) not in E]

    def decide(it, c):
        try:
            return point.cond(it.reify(c))
        except (NotAlgebraic, Unreadable, ZeroDivisionError, OverflowError, KeyError, TypeError, AttributeError):
            return None

    def reverse(world, args, kw):
        h = world.it.heap[args[0][1]]
        h.items = h.items[::-1]
        return args[0]
    w = World(prog, exact=True, decide=decide, calls=sp.calls(numpy_calls(SimpleNamespace(decide=decide))),
              fns={"sortkeys_inplace": reverse, "sortkeys_inplace_split": reverse},
              new_hook=lambda it, q, a, k, n: VAC if q.split(":")[-1] == "DictKey" else None)
    seq, req = setdict(w, sorted(E), N), setdict(w, rev(E), N)
    em = w.dict([(("tuple", (C(a), C(b))), atom((a, b))) for a, b in E])
    srcs = {"a": ("sym", "src a"), "c": ("sym", "src c")} if sources else None
    r = w.func(SPARSE, "inverse_solve_inplace", seq=seq, req=req, edge_map=em, outputs_set=w.set([C(x) for x in outputs]),
               inputs_set=w.set([C(x) for x in inputs]), inputs_map=w.dict([(C(k), v) for k, v in srcs.items()]) if srcs else NONE,
               scattering=C(scattering), negative=C(negative), purge_in=TRUE, purge_out=TRUE)
    label = "sparse, %s" % " ".join(x for x in ("scattering" if scattering else "matrix", "negative" if negative else "", "driven" if sources else "", "%d points" % len(indices)) if x)
    judge(ctx, w, r, point, label, where_of(prog, SPARSE, "inverse_solve_inplace"), N, E, srcs, scattering, negative, inputs, outputs)


def fields(w, r):
    if r[0] == "call":
        return dict(r[3])
    if r[0] == "new":
        return dict(r[3])
    if r[0] == "obj" and w.it.heap[r[1]].kind == "dict":
        return {k[1]: v for k, v, g in w.entries(r)}
    raise Unreadable("result not a bunch of fields")


def wholes(ctx, prog):
    first, last = (lambda n: 0), (lambda n: n - 1)
    for policy, pn in ((first, "first"), (last, "last"), (lambda n: n // 2, "middle")):
        for good in (True, False):
            attempt(ctx, "solve", whole, ctx, prog, DAG, "graph reduction, %s node" % pn, policy, good, True, False, True)
        attempt(ctx, "solve", whole, ctx, prog, GRAPH, "fast reduction, %s node" % pn, policy, True, True, False, True)
    for scattering, negative, purge in ((True, True, True), (False, False, True), (False, True, True)):
        attempt(ctx, "solve", whole, ctx, prog, DAG, "graph reduction", first, True, scattering, negative, purge)
        if scattering:
            attempt(ctx, "solve", whole, ctx, prog, GRAPH, "fast reduction", first, True, scattering, negative, purge)
    for scattering, negative, driven, points, inputs in (
            (True, False, True, [()], ("a", "d")), (True, True, True, [(0,), (1,)], ("a", "d")), (False, False, False, [(0,), (1,)], ("a", "d")),
            (False, True, False, [()], ("a", "d")), (True, False, False, [(0,), (1,)], ("a",)), (True, False, True, [()], ()),
            (False, False, True, [(0,), (1,)], ())):
        attempt(ctx, "solve", sparse, ctx, prog, scattering, negative, driven, points, inputs)


def run(ctx):
    prog = ctx.prog
    steps(ctx, prog)
    choices(ctx, prog)
    wholes(ctx, prog)
