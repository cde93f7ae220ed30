"""C15: numbers with separate real and imaginary parts calculate like complex numbers."""
import ast
import cmath
import os
import traceback

from sa.algebra import NotAlgebraic
from sa.evalterm import Point
from sa.interp import C, FALSE, Frame, TRUE, SurelyFails, Value, is_const, show
from sa.loader import AnalysisBroken
from sa.objects import Unreadable, World

BAD = (NotAlgebraic, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, Unreadable, StopIteration, ArithmeticError)
EXPLANATION = (
    "The methods of the complex number class are interpreted from source with symbolic real and imaginary parts and partners of every kind (real numbers, "
    "complex numbers, instances, plain values without parts), on either side of the operator; the parts of each result are compared, as functions of the "
    "symbols, with the complex operation.  Open comparisons are decided once per region of the symbols (signs of the parts, zero parts).")
ASSUMPTIONS = ["the parts are real numbers or arrays of them", "identities are decided at points inside each region of signs"]
MOD = "phasor.math.complex"
NUMBERS = {"int", "float", "complex", "ndarray", "Number", "Complex", "Real", "number", "generic", "bool", "str", "list", "tuple", "Integral"}


class Plain(Value):
    """a real quantity without real and imag attributes"""

    def __init__(self, t):
        self.t = t

    def attr(self, it, name):
        if name in ("real", "imag", "dtype", "conjugate"):
            raise SurelyFails("AttributeError")
        return None

    def binop(self, it, op, other, swapped):
        o = other[1].t if other[0] == "const" and isinstance(other[1], Plain) else other
        return ("bin", op, o, self.t) if swapped else ("bin", op, self.t, o)

    def unop(self, it, op):
        return ("un", op, self.t)


def S(n):
    return ("sym", n)


class Lab:
    def __init__(self, prog, values):
        self.values = values
        self.base = Point(1, {S(k): (complex(v),) for k, v in values.items()}, width=1)
        self.w = World(prog, objects=["Complex"], exact=True, strict=True, decide=self.decide, calls=self.calls, recursion=6)
        self.ci = prog.get_class(MOD, "Complex")
        self.w.it.opts["isinstance"] = self.isinstance
        self.w.it.opts["attr"] = self.attr

    def decide(self, it, cond):
        if cond[0] == "not":
            d = self.decide(it, cond[1])
            return None if d is None else not d
        if cond[0] == "cmp":
            cond = cond[:2] + tuple(x[1].t if x[0] == "const" and isinstance(x[1], Plain) else x for x in cond[2:])
            if any(x == C(None) for x in cond[2:]) and any(x[0] in ("sym", "bin", "attr", "un", "call") for x in cond[2:]):
                return {"is": False, "==": False, "is not": True, "!=": True}.get(cond[1])
        try:
            return self.base.cond(cond)
        except (NotAlgebraic, KeyError):
            return None

    def attr(self, it, t, name):
        """numbers standing in the expressions have a real and an imaginary part"""
        if t[0] in ("sym", "bin", "un") and name in ("real", "imag"):
            if t[0] == "sym" and not t[1].endswith("c"):
                return t if name == "real" else C(0.)
            return ("call", ("global", "numpy." + name), (t,), ())
        if t[0] in ("sym", "bin", "un") and name == "dtype":
            raise SurelyFails("AttributeError")
        return None

    def isinstance(self, it, x, cls):
        names = {c[1].split(":")[-1].split(".")[-1] for c in (cls[1] if cls[0] == "tuple" else [cls]) if c[0] in ("class", "global")}
        if x[0] == "const" and names <= NUMBERS and isinstance(x[1], (int, float, complex)):
            return bool(names & {type(x[1]).__name__, "Number"})
        if x[0] == "sym" and names <= NUMBERS:
            return bool(names & ({"complex", "Number"} if x[1].endswith("c") else {"float", "Number", "Real"}))
        if x[0] == "const" and isinstance(x[1], Plain):
            return False
        return None

    def calls(self, w, func, args, kw):
        name = func[1] if func[0] == "global" else func[2] if func[0] == "attr" and func[1][0] in ("global", "module") else ""
        short = name.split(".")[-1]
        if short in ("sin", "cos", "atan", "exp", "sqrt", "atan2", "arctan", "arctan2", "log") and args:
            return ("call", ("global", "numpy." + short), tuple(args), ())
        if short == "int" and len(args) == 1 and args[0][0] in ("sym", "const"):
            v = self.value(args[0])
            return C(int(v.real)) if v.imag == 0 else None
        return None

    def number(self, kind, name):
        """(term, value)"""
        v = self.values
        if kind == "pair":
            return self.w.new(self.ci, S(name), S(name + "i")), complex(v[name], v[name + "i"])
        if kind == "real":
            return S(name), complex(v[name])
        if kind == "complex":
            return S(name + "c"), complex(v[name + "c"])
        if kind == "plain":
            return C(Plain(S(name))), complex(v[name])
        if kind == "integer":
            return C(3), 3 + 0j
        if kind == "imaginary":
            return C(2j), 2j

    def parts(self, t):
        w = self.w
        vals = []
        if t[0] in ("inst",):
            for n in ("real", "imag"):
                x = w.attr(t, n)
                vals.append(self.value(x))
            return complex(vals[0].real, vals[1].real) if max(abs(x.imag) for x in vals) < 1e-9 else None
        return self.value(t)

    def value(self, t):
        if t[0] == "const" and isinstance(t[1], Plain):
            t = t[1].t
        return self.base.vec(self.base(t))[0]

    def evaluate(self, src, **names):
        it = self.w.it
        names = dict(names, Complex=("class", self.ci.qual))
        it.frames.append(Frame(self.ci.module, None, [names]))
        try:
            return it.ev(ast.parse(src, mode="eval").body)
        finally:
            it.frames.pop()

    def truth(self, t):
        t = self.w.it.as_cond(t)
        if t in (TRUE, FALSE):
            return t[1]
        return self.decide(self.w.it, t)


def regions():
    """signs of the parts; zero parts"""
    base = {"x": 1.2, "xi": .7, "y": -.4, "yi": 1.9, "yc": .6 - 1.1j, "p": .8}
    for r, i in ((1.2, .7), (-1.2, .7), (-1.2, -.7), (1.2, -.7), (0., .7), (0., -.7), (1.3, 0.), (-1.3, 0.)):
        yield dict(base, x=r, xi=i)


def close(a, b):
    return a is not None and abs(a - b) < 1e-9 * (1 + abs(b))


def run(ctx):
    prog = ctx.prog
    bad = {}

    def case(rule, construct, what, f):
        try:
            err = f()
        except AnalysisBroken:
            raise
        except SurelyFails as ex:
            err = "it raises %s" % ex
        except BAD as ex:
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            ctx.undecided("%s (%s): %s %s" % (construct, what, type(ex).__name__, str(ex)[:120]))
            return
        if err:
            bad.setdefault((rule, construct), "%s: %s" % (what, err))
        else:
            ctx.ok(rule, "%s: %s" % (construct, what))

    def num(z):
        return "%.4g%+.4gj" % (z.real, z.imag) if z is not None else "not a pair of real numbers"
    ops = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}
    for values in regions():
        lab = Lab(prog, values)
        w, it = lab.w, lab.w.it
        x, xv = lab.number("pair", "x")
        where = "real part %g, imaginary part %g" % (values["x"], values["xi"])
        for op, f in ops.items():
            for kind in ("pair", "real", "complex", "integer", "imaginary", "plain"):
                y, yv = lab.number(kind, "y")
                for swapped in (False, True):
                    a, b, want = (y, x, f(yv, xv)) if swapped else (x, y, f(xv, yv))

                    def calc():
                        r = lab.parts(lab.evaluate("a %s b" % op, a=a, b=b))
                        if not close(r, want):
                            return "it is %s instead of %s" % (num(r), num(want))
                    if op == "/" and not swapped:
                        def old():
                            r = lab.parts(lab.evaluate("a.__div__(b)", a=a, b=b))
                            if not close(r, want):
                                return "it is %s instead of %s" % (num(r), num(want))
                        case("arithmetic", "division by name", "%s number, %s" % (kind, where), old)
                        if kind in ("pair", "complex"):
                            def oldr():
                                r = lab.parts(lab.evaluate("a.__rdiv__(b)", a=a, b=b))
                                if not close(r, 1 / want):
                                    return "it is %s instead of %s" % (num(r), num(1 / want))
                            case("arithmetic", "division from the right by name", "%s number, %s" % (kind, where), oldr)
                    case("arithmetic", "%s %s" % (op, "from the right" if swapped else "from the left"), "%s number, %s" % (kind, where), calc)
        for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -3, 2., 3., -1., .5, 1.5, -.5, 1 / 3., 2.5):
            def power():
                r = lab.parts(lab.evaluate("a ** b", a=x, b=C(n)))
                want = xv ** n
                if not close(r, want):
                    return "it is %s instead of %s" % (num(r), num(want))
            case("power", "powers", "to the %.3g, %s" % (n, where), power)

        def symbolic():
            r = lab.parts(lab.evaluate("a ** b", a=x, b=S("p")))
            if not close(r, xv ** values["p"]):
                return "it is %s instead of %s" % (num(r), num(xv ** values["p"]))
        case("power", "powers", "to a real number, %s" % where, symbolic)
        for name, src, want in (("negative", "-a", -xv), ("positive", "+a", xv), ("modulus", "abs(a)", abs(xv) + 0j), ("squared modulus", "a.abs_sq()", abs(xv) ** 2 + 0j),
                                ("conjugate", "a.conjugate()", xv.conjugate()), ("exponential", "exp(a)", cmath.exp(xv)), ("phase", "angle(a)", cmath.phase(xv) + 0j),
                                ("phase in degrees", "angle(a, deg = True)", cmath.phase(xv) * 180 / cmath.pi + 0j), ("phase of a complex number", "angle(c)", cmath.phase(values["yc"]) + 0j),
                                ("copy", "Complex(a)", xv), ("from a complex number", "Complex(c)", values["yc"]), ("from a real number", "Complex(r)", values["y"] + 0j),
                                ("from parts", "Complex(r, r)", complex(values["y"], values["y"])),
                                ("from a plain number", "Complex(p)", values["y"] + 0j), ("power of a real number", "r ** Complex(3, 0)", values["y"] ** 3 + 0j),
                                ("power of an instance", "a ** Complex(3, 0)", xv ** 3), ("element", "Complex([r, a.real], [r, a.imag])[1]", xv),
                                ("sum of several", "sum([a, a, c])", 2 * xv + values["yc"])):
            def unary():
                r = lab.parts(lab.evaluate(src, a=x, c=S("yc"), r=S("y"), p=C(Plain(S("y")))))
                if not close(r, want):
                    return "it is %s instead of %s" % (num(r), num(want))
            case("functions", name, where, unary)
        twins = [("pair", lab.w.new(lab.ci, S("x"), S("xi")), xv), ("complex", S("xc"), xv), ("pair with another real part", lab.w.new(lab.ci, S("y"), S("xi")), complex(values["y"], values["xi"])),
                 ("pair with another imaginary part", lab.w.new(lab.ci, S("x"), S("yi")), complex(values["x"], values["yi"])), ("real", S("x"), complex(values["x"])), ("plain", C(Plain(S("x"))), complex(values["x"]))]
        lab.base.atoms[S("xc")] = (xv,)
        lab.values["xc"] = xv
        for name, t, tv in twins:
            for src, want in (("a == b", xv == tv), ("a != b", xv != tv)):
                def compare():
                    r = lab.truth(lab.evaluate(src, a=x, b=t))
                    if r is None:
                        raise Unreadable("comparison %s" % src)
                    if r != want:
                        return "%s of %s and %s is %s" % (src, num(xv), num(tv), r)
                case("comparison", "comparison", "%s with a %s, %s" % (src, name, where), compare)

        def hashes():
            h = [w.it.reify(lab.evaluate("hash(b)", b=t)) for t in (x, twins[0][1])]
            if h[0] != h[1]:
                return "equal numbers have hashes %s and %s" % (show(h[0])[:60], show(h[1])[:60])
        case("comparison", "hash", where, hashes)

        def zero():
            r = lab.truth(w.func(MOD, "zero_check_heuristic", x))
            if r is None:
                raise Unreadable("zero check")
            if r != (xv == 0):
                return "%s is %s" % (num(xv), "zero" if r else "not zero")
        case("zero", "zero check of a pair", where, zero)
    for (rule, construct), d in sorted(bad.items()):
        ctx.fail(rule, construct, "phasor/math/complex.py", d)
    ctx.assumptions = ASSUMPTIONS
