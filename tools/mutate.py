#!/usr/bin/env python3
"""mutate.py CHECK FILE [--func a,b] [--max N]: small source changes of FILE (relative to the repository),
each given to a check on a scratch copy; prints those the check does not report.  A development aid: many
survivors change nothing observable."""
import argparse, ast, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

ap = argparse.ArgumentParser()
ap.add_argument("check"); ap.add_argument("file"); ap.add_argument("--func", default=""); ap.add_argument("--max", type=int, default=60)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--jobs", type=int, default=7)
A = ap.parse_args()
src = open("/repo/" + A.file).read()
tree = ast.parse(src)
lines = src.split("\n")
off = [0]
for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
raw = src.encode()


def span(n):
    return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset


def text(n):
    a, b = span(n)
    return raw[a:b].decode()


muts = []


def sub(n, new, kind):
    a, b = span(n)
    muts.append((n.lineno, kind, a, b, new))


def visit(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp):
            l, r = text(n.left), text(n.right)
            for o, ops in (("Add", ["-"]), ("Sub", ["+"]), ("Mult", ["/"]), ("Div", ["*"])):
                if type(n.op).__name__ == o and not isinstance(n.left, (ast.Constant,)) | False:
                    for x in ops:
                        sub(n, "((%s) %s (%s))" % (l, x, r), "op")
            if type(n.op).__name__ in ("Mult", "Add", "Div"):
                sub(n, "(%s)" % l, "dropright")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            sub(n, text(n.operand), "neg")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {"Eq": "!=", "NotEq": "==", "In": "not in", "NotIn": "in", "Is": "is not", "IsNot": "is", "Lt": ">=", "Gt": "<=", "LtE": ">", "GtE": "<"}
            sub(n, "(%s %s %s)" % (text(n.left), m[type(n.ops[0]).__name__], text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            sub(n, "pass", "dropcall")
        elif isinstance(n, (ast.Delete, ast.AugAssign)):
            sub(n, "pass", "drop")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            sub(n, "(%r)" % (n.value + 1), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            sub(n, repr(not n.value), "bool")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("conjugate", "conj") and not n.args:
            sub(n, text(n.func.value), "conj")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            a, b = n.slice.elts
            sub(n, "%s[%s, %s]" % (text(n.value), text(b), text(a)), "swapidx")
        elif isinstance(n, ast.Attribute) and n.attr in ("i", "o"):
            sub(n, "%s.%s" % (text(n.value), {"i": "o", "o": "i"}[n.attr]), "io")
        elif isinstance(n, (ast.Continue,)):
            sub(n, "pass", "continue")
        elif isinstance(n, ast.If) and not n.orelse:
            sub(n.test, "True", "iftrue"); sub(n.test, "False", "iffalse")
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            a, b = span(n.args[0]); c, d = span(n.args[1])
            muts.append((n.lineno, "swapargs", a, d, text(n.args[1]) + ", " + text(n.args[0])))


want = [x for x in A.func.split(",") if x]
fns = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and (not want or n.name in want)]
if want:
    for f in fns:
        visit(f)
else:
    visit(tree)
muts = sorted(set(muts))
random.Random(A.seed).shuffle(muts)
muts = muts[:A.max]
pool = Queue()
dirs = []
for _ in range(A.jobs):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    dirs.append(d)
    shutil.copytree("/repo/phasor", d + "/phasor", ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    pool.put(d)


def go(m):
    line, kind, a, b, new = m
    d = pool.get()
    p = os.path.join(d, A.file)
    try:
        txt = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(txt)
        except SyntaxError:
            return None
        open(p, "w").write(txt)
        env = dict(os.environ, PHASOR_REPO=d, VERIF_EVIDENCE=d)
        for c in A.check.split(","):
            r = subprocess.run([sys.executable, "/verif/check.py", c], capture_output=True, text=True, env=env, timeout=900)
            if r.returncode == 1:
                break
        return (r.returncode, line, kind, raw[a:b].decode(), new, r.stdout + r.stderr)
    except subprocess.TimeoutExpired:
        return ("timeout", line, kind, raw[a:b].decode(), new, "")
    finally:
        open(p, "w").write(src)
        pool.put(d)


with ThreadPoolExecutor(A.jobs) as ex:
    res = [x for x in ex.map(go, muts) if x]
for d in dirs:
    shutil.rmtree(d)
print("%d changes, %d reported, %d no answer" % (len(res), sum(r[0] == 1 for r in res), sum(r[0] not in (0, 1) for r in res)))
for r in sorted((r for r in res if r[0] != 1), key=lambda r: r[1]):
    und = [l for l in r[5].split("\n") if "undecided" in l]
    print("%s line %d %-9s %s  ->  %s   | %s%s" % (r[0], r[1], r[2], r[3][:70].replace("\n", " "), r[4][:60].replace("\n", " "), lines[r[1] - 1].strip()[:60], "  UND" if und else ""))
