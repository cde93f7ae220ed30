"""Parse /repo/phasor into a resolved program: modules, import maps, classes, MROs.

Nothing of the repository is imported or executed; everything below is derived
from the syntax trees of the current working tree.
"""
import ast
import os
import hashlib

REPO = os.environ.get("PHASOR_REPO", "/repo")
PKG = "phasor"


class AnalysisBroken(Exception):
    """An anchor the check relies on vanished: an error exit, never a pass."""


class Module:
    def __init__(self, name, path, relpath, tree, src, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.src = src
        self.is_pkg = is_pkg
        self.imports = {}      # local alias -> ('mod', name) | ('from', module, attr)
        self.stars = []        # modules star-imported
        self.defs = {}         # top level name -> ast node (FunctionDef/ClassDef) or ('assign', expr)
        self.classes = {}


class ClassInfo:
    def __init__(self, module, node, outer=None):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = module.name + ":" + (outer + "." if outer else "") + node.name
        self.members = {}      # name -> FunctionDef | ('assign', expr)
        self.base_exprs = node.bases

    def __repr__(self):
        return "<Class %s>" % self.qual


def _dec_name(dec):
    d = dec
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return None


PROPERTY_DECOS = {
    "dproperty", "mproperty", "property", "dproperty_adv", "mproperty_plain",
    "mproperty_fns", "dproperty_adv_group", "mproperty_adv", "cached_property",
}


def deco_names(fn):
    return [_dec_name(d) for d in getattr(fn, "decorator_list", [])]


def is_property(fn):
    return any(n in PROPERTY_DECOS for n in deco_names(fn))


def is_static(fn):
    return "staticmethod" in deco_names(fn)


def is_classmethod(fn):
    return "classmethod" in deco_names(fn)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.by_path = {}
        self._load()
        self._mro = {}

    def _load(self):
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken("no package directory %s" % root)
        self.errors = []
        for dp, dns, fns in os.walk(root):
            dns.sort()
            for fn in sorted(fns):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dp, fn)
                rel = os.path.relpath(path, self.repo)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(path, "rb") as f:
                    raw = f.read()
                src = raw.decode("utf-8", "replace")
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    self.errors.append((rel, str(e)))
                    continue
                m = Module(name, path, rel, tree, src, is_pkg)
                self.modules[name] = m
                self.by_path[rel] = m
                self._index(m)

    def _index(self, m):
        def pkg_of(level):
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            if level > 1:
                parts = parts[: len(parts) - (level - 1)]
            return ".".join(parts)

        def visit(stmts):
            for st in stmts:
                if isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            m.imports[a.asname] = ("mod", a.name)
                        else:
                            m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
                elif isinstance(st, ast.ImportFrom):
                    if st.level:
                        base = pkg_of(st.level)
                        mod = base + ("." + st.module if st.module else "")
                    else:
                        mod = st.module
                    for a in st.names:
                        if a.name == "*":
                            m.stars.append(mod)
                        else:
                            m.imports[a.asname or a.name] = ("from", mod, a.name)
                elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.defs[st.name] = st
                elif isinstance(st, ast.ClassDef):
                    m.defs[st.name] = st
                    m.classes[st.name] = self._index_class(m, st)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.defs[t.id] = ("assign", st.value)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    m.defs[st.target.id] = ("assign", st.value)
                elif isinstance(st, (ast.If, ast.Try)):
                    visit(st.body)
                    for h in getattr(st, "handlers", []):
                        visit(h.body)
                    visit(st.orelse)
                    visit(getattr(st, "finalbody", []))
                elif isinstance(st, ast.With):
                    visit(st.body)
        visit(m.tree.body)

    def _index_class(self, m, node):
        ci = ClassInfo(m, node)

        def visit(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    ci.members[st.name] = st
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            ci.members[t.id] = ("assign", st.value)
                        elif isinstance(t, ast.Tuple):
                            for e in t.elts:
                                if isinstance(e, ast.Name):
                                    ci.members[e.id] = ("assign", st.value)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    ci.members[st.target.id] = ("assign", st.value)
                elif isinstance(st, (ast.If, ast.With)):
                    visit(st.body)
                    visit(getattr(st, "orelse", []))
        visit(node.body)
        return ci

    # ---- name resolution -------------------------------------------------
    def resolve_in_module(self, modname, attr, _seen=None):
        """-> ('module', name) | ('class', ClassInfo) | ('func', Module, node)
              | ('assign', Module, expr) | ('ext', dotted) | None"""
        _seen = _seen or set()
        if (modname, attr) in _seen:
            return None
        _seen.add((modname, attr))
        m = self.modules.get(modname)
        if m is None:
            return ("ext", modname + "." + attr)
        if attr in m.defs:
            d = m.defs[attr]
            if isinstance(d, ast.ClassDef):
                return ("class", m.classes[attr])
            if isinstance(d, tuple):
                return ("assign", m, d[1])
            return ("func", m, d)
        if attr in m.imports:
            imp = m.imports[attr]
            if imp[0] == "mod":
                return ("module", imp[1]) if imp[1] in self.modules else ("ext", imp[1])
            _, mod, name = imp
            full = mod + "." + name
            if mod in self.modules:
                r = self.resolve_in_module(mod, name, _seen)
                if r is not None and not (r[0] == "ext" and full in self.modules):
                    return r
            if full in self.modules:
                return ("module", full)
            return ("ext", full)
        for s in m.stars:
            if s in self.modules:
                r = self.resolve_in_module(s, attr, _seen)
                if r is not None and r[0] != "ext":
                    return r
        if m.name + "." + attr in self.modules:
            return ("module", m.name + "." + attr)
        return None

    def resolve_expr_class(self, m, expr, _depth=0):
        if _depth > 20:
            return None
        if isinstance(expr, ast.Name):
            r = self.resolve_in_module(m.name, expr.id)
        elif isinstance(expr, ast.Attribute):
            b = self.resolve_expr(m, expr.value)
            if b and b[0] == "module":
                r = self.resolve_in_module(b[1], expr.attr)
            elif b and b[0] == "ext":
                r = ("ext", b[1] + "." + expr.attr)
            else:
                r = None
        else:
            r = None
        if r and r[0] == "class":
            return r[1]
        if r and r[0] == "assign":
            return self.resolve_expr_class(r[1], r[2], _depth + 1)
        return None

    def resolve_expr(self, m, expr):
        if isinstance(expr, ast.Name):
            return self.resolve_in_module(m.name, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(m, expr.value)
            if b and b[0] == "module":
                return self.resolve_in_module(b[1], expr.attr)
            if b and b[0] == "ext":
                return ("ext", b[1] + "." + expr.attr)
        return None

    # ---- classes ---------------------------------------------------------
    def all_classes(self):
        for mn in sorted(self.modules):
            m = self.modules[mn]
            for cn in m.classes:
                yield m.classes[cn]

    def bases(self, ci):
        out = []
        for b in ci.base_exprs:
            c = self.resolve_expr_class(ci.module, b)
            if c is not None:
                out.append(c)
        return out

    def mro(self, ci):
        if ci.qual in self._mro:
            return self._mro[ci.qual]
        self._mro[ci.qual] = [ci]     # recursion guard
        seqs = [list(self.mro(b)) for b in self.bases(ci)] + [list(self.bases(ci))]
        res = [ci]
        seqs = [s for s in seqs if s]
        while seqs:
            cand = None
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    cand = c
                    break
            if cand is None:           # inconsistent: fall back to DFS order
                cand = seqs[0][0]
            res.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        self._mro[ci.qual] = res
        return res

    def lookup(self, ci, name, after=None):
        """(defining class, member) following the MRO (optionally after a class)."""
        mro = self.mro(ci)
        if after is not None:
            if after in mro:
                mro = mro[mro.index(after) + 1:]
            else:
                mro = []
        for c in mro:
            if name in c.members:
                return c, c.members[name]
        return None

    def subclass_of(self, ci, basename):
        return any(c.name == basename for c in self.mro(ci))

    def get_class(self, modname, cname):
        m = self.modules.get(modname)
        if m is None or cname not in m.classes:
            raise AnalysisBroken("anchor class %s:%s vanished" % (modname, cname))
        return m.classes[cname]

    def get_func(self, modname, fname):
        m = self.modules.get(modname)
        if m is None or not isinstance(m.defs.get(fname), ast.FunctionDef):
            raise AnalysisBroken("anchor function %s:%s vanished" % (modname, fname))
        return m, m.defs[fname]

    def digest(self):
        h = hashlib.sha256()
        for mn in sorted(self.modules):
            h.update(mn.encode())
            h.update(self.modules[mn].src.encode("utf-8", "replace"))
        return h.hexdigest()
