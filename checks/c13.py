"""C13: labels of signal components: frequency combinations and key maps compare and combine by meaning."""
import ast
import itertools

from sa.algebra import NotAlgebraic
from sa.evalterm import Point
from sa.interp import C, Frame, SurelyFails, Value, TRUE, FALSE, is_const, show
from sa.loader import AnalysisBroken
from sa.objects import World, Unreadable

MOD = "phasor.base.dictionary_keys"
BAD = (NotAlgebraic, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, Unreadable, StopIteration, ArithmeticError)

EXPLANATION = (
    "DictKey and FrequencyKey are analysed from source as transformers of small finite maps: each operation is interpreted on abstract maps "
    "(every combination of absent and different entries, every order of insertion) and its result read back through the class's own access "
    "methods, then compared with the documented operation on finite maps and integer combinations; equality, hash and truth value of every "
    "result are compared with those of a freshly built key of the same content.")
ASSUMPTIONS = ["entries are treated only through equality and hash, frequencies only through identity: small maps stand for all"]


class F(Value):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "F(%s)" % self.name

    def attr(self, it, name):
        if name == "F_Hz":
            return C(Hz(self.name))
        if name == "name":
            return C(self.name)
        return None

    def binop(self, it, op, other, swapped):
        return None


class Hz(Value):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Hz(%s)" % self.name

    def attr(self, it, name):
        return ("sym", "hz " + self.name) if name == "val" else None


class Lab:
    """one world with its two classes and an expression evaluator"""

    def __init__(self, prog):
        self.w = World(prog, objects=("DictKey", "FrequencyKey"), exact=True, strict=True)
        self.dk, self.fk = prog.get_class(MOD, "DictKey"), prog.get_class(MOD, "FrequencyKey")

    def ev(self, src, **names):
        it = self.w.it
        names = dict(names, DictKey=("class", self.dk.qual), FrequencyKey=("class", self.fk.qual))
        it.frames.append(Frame(self.dk.module, None, [names]))
        try:
            return it.ev(ast.parse(src, mode="eval").body)
        finally:
            it.frames.pop()

    def known(self, src, **names):
        """value of an expression that must come out as a constant"""
        t = self.w.it.reify(self.ev(src, **names))
        if not is_const(t):
            raise Unreadable("%s is %s" % (src, show(t)[:80]))
        return t[1]

    def truth(self, src, **names):
        t = self.w.it.as_cond(self.ev(src, **names))
        if t not in (TRUE, FALSE):
            raise Unreadable("%s is %s" % (src, show(t)[:80]))
        return t[1]

    def key(self, d):
        return self.w.new(self.dk, self.w.dict([(C(k), v) for k, v in d]))

    def freq(self, d):
        return self.w.new(self.fk, self.w.dict([(C(k), C(n)) for k, n in d]))

    def entries(self, k):
        """content of a label as its users see it"""
        out = {}
        for x, l, g in self.w.it.iter_concrete(self.ev("list(k)", k=k)) or ():
            if l or g or not is_const(x):
                raise Unreadable("open label")
            if x[1] in out:
                raise Unreadable("repeated")
            v = self.ev("k[n]", k=k, n=x)
            out[x[1]] = v
        return out

    def multiples(self, f):
        out = {}
        for x, l, g in self.w.it.iter_concrete(self.ev("list(f.F_dict.items())", f=f)):
            if l or g or x[0] != "tuple" or not is_const(x[1][1]):
                raise Unreadable("open combination")
            out[x[1][0][1]] = x[1][1][1]
        return out

    def hash(self, k):
        return self.w.it.reify(self.ev("hash(k)", k=k))


NAMES = "abc"


def maps():
    vals = (None, "u", "v")
    for c in itertools.product(vals, vals, (None, "u")):
        yield tuple((n, C(v)) for n, v in zip(NAMES, c) if v is not None)


def label(d):
    return "{%s}" % ",".join("%s:%s" % (k, v[1] if is_const(v) else "..") for k, v in d)


class Run:
    def __init__(self, ctx, where):
        self.ctx, self.where, self.bad = ctx, where, {}

    def case(self, rule, what, f):
        """one instance of a documented operation; one report per operation"""
        try:
            err = f()
        except SurelyFails as ex:
            err = "it raises %s" % ex
        except BAD as ex:
            import os
            import traceback
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            self.ctx.undecided("%s %s: %s %s" % (rule, what, type(ex).__name__, str(ex)[:120]))
            return
        name = what.split(" | ")[0]
        if err:
            self.bad.setdefault((rule, name), (what, err))
        else:
            self.ctx.ok(rule, what)

    def report(self):
        for (rule, name), (what, err) in sorted(self.bad.items()):
            self.ctx.fail(rule, name, self.where, "%s: %s" % (what, err))


def same(lab, k, want):
    """None or how the label differs from the wanted content"""
    got = lab.entries(k)
    d = dict(want)
    if set(got) != set(d) or any(lab.w.it.compare("Eq", got[n], d[n]) != TRUE for n in d):
        return "it holds {%s}" % ", ".join("%s: %s" % (n, show(got[n])[:30]) for n in sorted(got))
    for order in (list(want), list(want)[::-1]):
        ref = lab.key(order)
        if not lab.truth("k == r and r == k and not (k != r)", k=k, r=ref):
            return "it does not equal the label with the same entries"
        if lab.hash(k) != lab.hash(ref):
            return "its hash is not that of the label with the same entries"
    if lab.known("len(k)", k=k) != len(d):
        return "its length is wrong"
    if lab.truth("k", k=k) != bool(d):
        return "its truth value is wrong"
    return None


def labels(ctx, prog):
    r = Run(ctx, "phasor/base/dictionary_keys.py DictKey")
    alls = list(maps())

    def fresh():
        return Lab(prog)

    def value(what, src, want, names, extra=None):
        def f():
            lab = fresh()
            args = dict((n, lab.key(d)) for n, d in names.items())
            args.update(extra(lab) if extra else {})
            k = lab.ev(src, **args)
            err = same(lab, k, want)
            if err:
                return err
            for n, d in names.items():
                err = same(lab, args[n], d)
                if err:
                    return "the operand was changed: %s" % err
        r.case("labels", "%s | %s" % (what, " ".join("%s=%s" % (n, label(d)) for n, d in sorted(names.items()))), f)

    def fact(what, src, want, names, extra=None):
        def f():
            lab = fresh()
            args = dict((n, lab.key(d)) for n, d in names.items())
            args.update(extra(lab) if extra else {})
            if want is None:
                try:
                    got = lab.ev(src, **args)
                except SurelyFails as ex:
                    return None if str(ex).startswith("KeyError") else "it raises %s" % ex
                return "it gives %s" % show(got)[:60]
            got = lab.truth(src, **args)
            return None if got == want else "it is %s" % got
        r.case("labels", "%s | %s" % (what, " ".join("%s=%s" % (n, label(d)) for n, d in sorted(names.items()))), f)

    for a in alls:
        value("a label built from entries", "k", a, dict(k=a))
        value("a label built from another label", "DictKey(k)", a, dict(k=a))
        value("a label built from named entries", "DictKey(**dict(k))", a, dict(k=a))
        A = dict(a)
        for n in NAMES:
            fact("presence of an entry", "n in k", n in A, dict(k=a), lambda lab, n=n: dict(n=C(n)))
            for v in "uv":
                fact("presence of an entry with a value", "k.kv_contains(n, v)", A.get(n) == C(v), dict(k=a), lambda lab, n=n, v=v: dict(n=C(n), v=C(v)))
                value("an update by name", "k.copy_update(%s=v)" % n, tuple(dict(A, **{n: C(v)}).items()), dict(k=a), lambda lab, v=v: dict(v=C(v)))
            fact("access with a default", "k.get(n, d) == x", True, dict(k=a), lambda lab, n=n: dict(n=C(n), d=C("dflt"), x=A.get(n, C("dflt"))))
            if n not in A:
                fact("access of an absent entry raises KeyError", "k[n]", None, dict(k=a), lambda lab, n=n: dict(n=C(n)))
            value("removal where present", "k.purge_keys(n)", [x for x in a if x[0] != n], dict(k=a), lambda lab, n=n: dict(n=C(n)))
            if n in A:
                value("removal", "k.without_keys(n)", [x for x in a if x[0] != n], dict(k=a), lambda lab, n=n: dict(n=C(n)))
        value("removal of several where present", "k.purge_keys('a', 'b')", [x for x in a if x[0] == "c"], dict(k=a))
        if "a" in A and "b" in A:
            value("removal of several", "k.without_keys('a', 'b')", [x for x in a if x[0] == "c"], dict(k=a))
        fact("a label is not its entries", "k == 'ab' or k == dict(k)", False, dict(k=a))
    for a, b in itertools.product(alls, alls):
        A, B = dict(a), dict(b)
        over = tuple(dict(A, **B).items())
        value("union, the second taking precedence", "p | q", over, dict(p=a, q=b))
        value("common entries", "p & q", [x for x in a if x in b], dict(p=a, q=b))
        value("replacement", "p.replace_keys(q)", over, dict(p=a, q=b))
        value("replacement from a dictionary", "p.replace_keys(dict(q))", over, dict(p=a, q=b))
        fact("inclusion", "p.contains(q)", set(b) <= set(a), dict(p=a, q=b))
        fact("inclusion of a sub label", "p.subkey_has(q)", set(b) <= set(a), dict(p=a, q=b))
        fact("equality", "p == q", A == B, dict(p=a, q=b))
        fact("inequality", "p != q", A != B, dict(p=a, q=b))
        fact("being in common", "p & q", bool(set(a) & set(b)), dict(p=a, q=b))
        if set(b) <= set(a):
            value("difference", "p - q", [x for x in a if x not in b], dict(p=a, q=b))
    three = [x for x in alls if len(x) <= 2][::2]
    for a, b, c in itertools.product(three, three, three[:4]):
        d = dict(dict(a), **dict(b))
        d.update(dict(c))
        value("replacement from several", "p.replace_keys(q, r)", tuple(d.items()), dict(p=a, q=b, r=c))
    # labels stay what they are when the dictionary they were built from changes
    def frozen():
        lab = fresh()
        d = lab.w.dict([(C("a"), C("u"))])
        k = lab.w.new(lab.dk, d)
        lab.ev("d.update(dict(a='v', b='u'))", d=d)
        return same(lab, k, [("a", C("u"))])
    r.case("labels", "a label does not change with the dictionary it was built from", frozen)
    # labels as entries: frequency combinations compare by meaning inside labels
    for how, src in (("computed", "DictKey({'F': f + g - g})"), ("replaced", "DictKey({'F': g}).replace_keys({'F': f})"), ("united", "DictKey({'F': g}) | DictKey({'F': f})")):
        def nested(src=src):
            lab = fresh()
            one, two = C(F("1")), C(F("2"))
            f, g = lab.freq([(one[1], 1), (two[1], -1)]), lab.freq([(two[1], 2)])
            k = lab.ev(src, f=f, g=g)
            ref = lab.key([("F", lab.freq([(two[1], -1), (one[1], 1)]))])
            if not lab.truth("k == r and r == k and k.contains(r) and k & r", k=k, r=ref):
                return "it does not equal the label of the same frequency"
            if lab.hash(k) != lab.hash(ref):
                return "its hash is not that of the label of the same frequency"
            h = lab.freq([(two[1], -1), (one[1], 1)])
            for x, y in ((k, ref), (ref, k)):
                if not lab.truth("x.subkey_has(y) and x.contains(y) and not (x != y)", x=x, y=y):
                    return "it does not include the label of the same frequency"
                if lab.truth("x - y", x=x, y=y):
                    return "its difference from the label of the same frequency is not empty"
            if not lab.truth("k.kv_contains('F', h) and k['F'] == h and k.get('F') == h", k=k, h=h):
                return "the frequency is not found in it"
            if lab.truth("k.kv_contains('F', g) or k.subkey_has(q) or k.contains(q) or k & q or k == q", k=k, g=g, q=lab.key([("F", g)])):
                return "another frequency is found in it"
        r.case("labels", "a label holding a frequency %s" % how, nested)
    r.report()


def combinations(ctx, prog):
    r = Run(ctx, "phasor/base/dictionary_keys.py FrequencyKey")
    one, two, thr = F("1"), F("2"), F("3")
    N = (None, 0, 1, -1, 2)
    alls = [tuple((f, n) for f, n in zip((one, two), c) if n is not None) for c in itertools.product(N, N)]
    alls += [((one, 1), (two, 3), (thr, -2)), ((thr, 1),), ((thr, -1), (one, -3))]

    def clean(d):
        return dict((f, n) for f, n in dict(d).items() if n)

    def plus(a, b, s=1):
        d = dict(a)
        for f, n in b:
            d[f] = d.get(f, 0) + s * n
        return clean(d)

    def show_c(d):
        return "{%s}" % ",".join("%s:%d" % (f.name, n) for f, n in d)

    def agrees(lab, k, want):
        got = clean(lab.multiples(k))
        if got != want:
            return "its multiples are %s" % show_c(sorted(got.items(), key=repr))
        items = list(want.items())
        for ref in (items, items[::-1], items + [(f, 0) for f in (one, two, thr) if f not in want]):
            ref = lab.freq(ref)
            if not lab.truth("k == r and r == k and not (k != r)", k=k, r=ref):
                return "it does not equal the same combination built afresh"
            if lab.hash(k) != lab.hash(ref):
                return "its hash is not that of the same combination built afresh"
        if lab.truth("k.DC_is()", k=k) != (not want):
            return "it is %sDC" % ("not " if not want else "")
        for f, n in items:
            if lab.known("k[f]", k=k, f=C(f)) != n:
                return "its multiple of a frequency is wrong"
        p = Point(5)
        t = lab.w.it.reify(lab.ev("k.frequency()", k=k))
        v = p.vec(p(t))
        ref = [0j] * p.width
        for f, n in items:
            x = p.vec(p(("sym", "hz " + f.name)))
            ref = [a + n * b for a, b in zip(ref, x)]
        if any(abs(a - b) > 1e-9 for a, b in zip(v, ref)):
            return "its frequency is %s" % show(t)[:80]
        return None

    def value(what, src, want, **names):
        def f():
            lab = Lab(prog)
            args = dict((n, lab.freq(d)) for n, d in names.items())
            err = agrees(lab, lab.ev(src, **args), want)
            if err:
                return err
            for n, d in names.items():
                err = agrees(lab, args[n], clean(d))
                if err:
                    return "the operand was changed: %s" % err
        r.case("frequencies", "%s | %s" % (what, " ".join("%s=%s" % (n, show_c(d)) for n, d in sorted(names.items()))), f)

    for a in alls:
        value("a combination", "p", clean(a), p=a)
        value("a combination in other order", "p", clean(a), p=a[::-1])
        value("opposite", "-p", plus((), a, -1), p=a)
        for n in (-2, -1, 0, 1, 2, 3):
            value("multiple", "%d * p" % n, clean((f, n * m) for f, m in a), p=a)
    for a, b in itertools.product(alls, alls):
        value("sum", "p + q", plus(a, b), p=a, q=b)
        value("difference", "p - q", plus(a, b, -1), p=a, q=b)

        def eq(a=a, b=b):
            lab = Lab(prog)
            p, q = lab.freq(a), lab.freq(b)
            want = clean(a) == clean(b)
            if lab.truth("p == q", p=p, q=q) != want or lab.truth("p != q", p=p, q=q) == want:
                return "equality is not that of the multiples"
            if want and lab.hash(p) != lab.hash(q):
                return "equal, with different hashes"
        r.case("frequencies", "equality | p=%s q=%s" % (show_c(a), show_c(b)), eq)
    for a, b in itertools.product(alls[::3], alls[1::4]):
        value("mixture", "2 * p + q - p", plus(plus(plus(a, a), b), a, -1), p=a, q=b)
        value("mixture", "-(p - q) + p", clean(b), p=a, q=b)

    def other():
        lab = Lab(prog)
        return "it is" if lab.truth("p == 'x' or p == DictKey()", p=lab.freq([(one, 1)])) else None
    r.case("frequencies", "a frequency does not equal other things", other)

    def frozen():
        lab = Lab(prog)
        k = lab.freq([(one, 1)])
        h = lab.hash(k)
        lab.ev("k + q", k=k, q=lab.freq([(one, 1), (two, 1)]))
        lab.ev("k - q", k=k, q=lab.freq([(one, 1), (two, 1)]))
        return agrees(lab, k, {one: 1}) or (None if lab.hash(k) == h else "its hash changed")
    r.case("frequencies", "a combination does not change in use", frozen)
    r.report()


def run(ctx):
    ctx.prog.get_class(MOD, "DictKey")
    ctx.prog.get_class(MOD, "FrequencyKey")
    labels(ctx, ctx.prog)
    combinations(ctx, ctx.prog)
    ctx.assumptions = ASSUMPTIONS
