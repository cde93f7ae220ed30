"""C02: physical quantities stay real.

For every coupling and every source an element inserts between some port keys, what it
inserts between the conjugate keys (lowering <-> raising for light, f <-> -f for classical
signals) is the complex conjugate, for real parameters."""
import ast

from sa.algebra import num, NotAlgebraic, atom, Alg, r_conj, new_budget
from sa.coupling import (instances, contributions, split, start_facts, conj_nf, hermitian_conj, Undecided, instance_names)
from sa.interp import Interp, NONE, show, walk, SELF
from sa.loader import AnalysisBroken
from sa.portflow import ElementFlow
from checks.c01 import element_classes

EXPLANATION = (
    "For every element class the couplings and coherent sources inserted by system_setup_coupling are computed as effects "
    "(abstract interpretation of the source, helpers and inherited code included), each expanded over its lowering/raising "
    "and polarisation cases.  For each inserted set of port keys the total coefficient is summed as an algebraic normal form, "
    "split on the conditions that stay open, and compared with the total coefficient inserted on the conjugate keys: the two "
    "must be complex conjugates as algebraic expressions.  X / XC attribute pairs are additionally checked to default to conjugates, "
    "and the frequency cutoff test to depend on |f| only.")
ASSUMPTIONS = (
    "parameters of elements are real numbers unless an X/XC pair or a documented complex gain",
    "user supplied responses Z(f) satisfy conj Z(f) = Z(-f); a user supplied loss angle is odd in f",
    "selection keys of a selector name carrier and polarisation entries only",
)


BUDGET = 60000


def analyse(ctx, ci):
    flow = ElementFlow(ctx.prog, ci)
    done = set()
    for x in instances(flow):
        if any(m.nf is None for m in x.members):
            ctx.undecided("%s at %s: key not readable" % (ci.qual, x.e.loc))
            continue
        new_budget(BUDGET)
        S = x.sig()
        T = [(port, role, conj_nf(nf, flow.is_optical(port))) for port, role, nf in S]
        try:
            items = contributions(flow, x.method, S, "a") + contributions(flow, x.method, T, "b")
            res = split(items, start_facts(x))
        except (Undecided, NotAlgebraic) as ex:
            ctx.undecided("%s at %s: %s" % (ci.qual, x.e.loc, str(ex)[:160]))
            continue
        if not any("a" in s for fs, s in res):
            ctx.undecided("%s at %s: coupling not found again at its own keys" % (ci.qual, x.e.loc))
            continue
        for fs, s in res:
            a, b = s.get("a", num(0)), s.get("b", num(0))
            con = "%s %s" % (ci.qual.split(":")[-1], " ".join("%s:%s%s" % (show(p), (nf[2] or ""), (nf[3] or "")) for p, r, nf in S))
            if hermitian_conj(a) == b:
                ctx.ok(x.method, con)
            else:
                ctx.fail(x.method, con, x.e.loc,
                         "inserts %r, but %r between the conjugate keys (expected its complex conjugate)" % (a, b))


def leaves(t, out):
    if t[0] == "ite":
        leaves(t[2], out)
        leaves(t[3], out)
    else:
        out.append(t)


def companions(ctx):
    for ci in ctx.prog.all_classes():
        if ci.module.name.startswith("phasor.matrix.old"):
            continue
        own = set(ci.members)
        for m in ci.members.values():
            if isinstance(m, ast.AST):
                own |= set(x.attr for x in ast.walk(m) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store))
        names = instance_names(ctx.prog, ci)
        for name in sorted(own):
            X = name[:-1]
            if not name.endswith("C") or not X or not X[-1:].isalnum() or X not in names or name.isupper():
                continue
            it = Interp(ctx.prog, ci)
            vals = []
            if name in ci.members:
                it.constructor_state()
                r = it.run_method(name, [NONE])
                if r is not None:
                    vals.append(it.reify(r))
            else:
                f = it.method("__init__")
                if f is None:
                    continue
                it.call_func(f, [("param", a.arg) for a in it.funcs[f[1]].node.args.args[1:]], [], None)
                vals = [it.reify(v) for k, v in it.store.items() if k[1] == name]
            for v in vals:
                ls = []
                leaves(v, ls)
                for t in ls:
                    if t == NONE or t[0] in ("const", "param"):
                        continue
                    given = {}      # attributes that just hold a constructor argument
                    for k, w in it.store.items():
                        if k[0] == SELF and it.reify(w)[0] == "param":
                            given[k[1]] = it.reify(w)[1]

                    def name_of(q):
                        if q and q[0] == "attr" and q[1] == SELF and q[2] in given:
                            return given[q[2]]
                        if q and q[0] == "attr" and q[1] == SELF and q[2] == X or q == ("param", X):
                            return given.get(X, X)
                        return q[1] if q and q[0] == "param" else None
                    mine = given.get(X, X)
                    seen = set(name_of(q) for q in walk(t)) - {None}
                    if not seen or (mine not in seen and name in ci.members):
                        continue
                    if mine not in seen and not (X in given and any(q and q[0] == "attr" and q[2] in ("conjugate", "conj") for q in walk(t))):
                        continue

                    def cx(q):
                        n = name_of(q)
                        return None if n is None else ("cx",) if n == mine else ("cx", n)
                    alg = Alg(cx)
                    alg.real = lambda a: a[0] != "cx"
                    try:
                        got = alg(t)
                    except NotAlgebraic:
                        continue
                    con = "%s.%s" % (ci.name, name)
                    if got == atom(("conj", ("cx",))):
                        ctx.ok("conjugate-default", con)
                    else:
                        ctx.fail("conjugate-default", con, ci.module.path if hasattr(ci.module, "path") else ci.module.name,
                                 "default of %s is %r, not the conjugate of %s" % (name, got, X))


def cutoff(ctx):
    """the max_freq test depends on the magnitude of the frequency only"""
    ci = ctx.prog.get_class("phasor.system.system", "BGSystem")
    it = Interp(ctx.prog, ci)
    it.constructor_state()
    r = it.run_method("classical_frequency_test_max", [("param", "key"), ("param", "max_freq")])
    if r is None:
        return
    r = it.reify(r)
    bad = []

    def is_abs(t):
        return t[0] == "call" and t[1][0] == "global" and t[1][1].split(".")[-1] in ("abs", "absolute", "fabs")

    def scan(t):
        if not isinstance(t, tuple) or not t or t[0] == "const":
            return
        if is_abs(t):
            return
        if t == ("param", "key"):
            bad.append(t)
        for q in t:
            if isinstance(q, tuple):
                scan(q)
    scan(r)
    if bad:
        # a square is even as well
        sq = [t for t in walk(r) if t and t[0] == "bin" and t[1] == "**"]
        if sq:
            return
    ctx.check(not bad, "even-cutoff", "BGSystem.classical_frequency_test_max", "phasor/system/system.py",
              "the cutoff depends on the sign of the frequency: %s" % show(r)[:300])


def run(ctx):
    n = 0
    for ci in element_classes(ctx.prog):
        n += 1
        try:
            analyse(ctx, ci)
        except AnalysisBroken:
            raise
        except Exception as ex:
            # outside the analysed fragment: undecided, never an alarm
            ctx.undecided("%s: %s %s" % (ci.qual, type(ex).__name__, str(ex)[:160]))
    companions(ctx)
    cutoff(ctx)
    ctx.info["element_classes"] = n
    if n < 40:
        raise AnalysisBroken("only %d element classes found" % n)
    ctx.floor("port_coupling_insert", 200)
    ctx.floor("coherent_sources_insert", 8)
