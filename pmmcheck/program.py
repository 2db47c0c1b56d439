"""Resolved program model of the parametricmatrixmodels package.

Parses every module of /repo/parametricmatrixmodels (source only, nothing is
imported or executed), resolves imports, classes and their method resolution
order.
"""
from __future__ import annotations

import ast
import os

REPO = os.environ.get("PMM_REPO", "/repo")
PKG = "parametricmatrixmodels"


class AnalysisError(Exception):
    """The analysis cannot give an answer (anchor vanished, unparsable)."""


class FuncInfo:
    def __init__(self, name, node, module, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.kind = "function"  # property / setter / classmethod / static
        self.decorators = []

    @property
    def qual(self):
        c = f"{self.cls.name}." if self.cls else ""
        return f"{self.module.name}:{c}{self.name}"


def mangled(cls, name):
    if name.startswith("__") and not name.endswith("__"):
        return f"_{cls.lstrip('_')}{name}"
    return name


class ClassInfo:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}
        self.props = {}
        self.setters = {}
        self.attrs = {}
        self.ann_fields = []
        self.bases = []
        self._mro = None
        self.is_dataclass = False
        self.frame = None

    @property
    def qual(self):
        return f"{self.module.name}.{self.name}"


class ModuleInfo:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.globals = {}  # name -> ('func',FuncInfo)|('class',..)|('import',dotted)|('from',mod,name)|('assign',node)
        self.order = []


def _dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    parts = []
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
    return ".".join(reversed(parts))


class Program:
    def __init__(self, repo=None, extra=()):
        """extra: {name: source} of modules a user of the package might write"""
        self.repo = repo or REPO
        self.modules = {}
        self.nfuncs = 0
        self.extra = dict(extra)
        self._load()

    def rel(self, path):
        return os.path.relpath(path, self.repo)

    def _load(self):
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError(f"package directory {root} not found")
        for dp, dn, fn in sorted(os.walk(root)):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(rel)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError(f"cannot parse {path}: {e}")
                self.modules[name] = ModuleInfo(name, path, tree, is_pkg)
        for name, src in self.extra.items():
            self.modules[name] = ModuleInfo(name, os.path.join(root, name + ".py"), ast.parse(src), False)
        for m in self.modules.values():
            self._scan(m)
        for m in self.modules.values():
            for g in list(m.globals.values()):
                if g[0] == "class":
                    self._resolve_bases(g[1])

    def _rel_module(self, m, level, mod):
        if level == 0:
            return mod
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        if mod:
            parts += mod.split(".")
        return ".".join(parts)

    def _scan(self, m):
        def handle(body):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fi = FuncInfo(n.name, n, m)
                    m.globals[n.name] = ("func", fi)
                    self.nfuncs += 1
                elif isinstance(n, ast.ClassDef):
                    m.globals[n.name] = ("class", self.make_class(n, m))
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            m.globals[a.asname] = ("import", a.name)
                        else:
                            top = a.name.split(".")[0]
                            m.globals[top] = ("import", top)
                elif isinstance(n, ast.ImportFrom):
                    base = self._rel_module(m, n.level, n.module)
                    for a in n.names:
                        if a.name == "*":
                            m.globals.setdefault("*", []).append(base)
                        else:
                            m.globals[a.asname or a.name] = ("from", base, a.name)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.globals[t.id] = ("assign", n.value)
                elif isinstance(n, ast.AnnAssign):
                    if isinstance(n.target, ast.Name) and n.value is not None:
                        m.globals[n.target.id] = ("assign", n.value)
                elif isinstance(n, (ast.If,)):
                    handle(n.body)
                    handle(n.orelse)
                elif isinstance(n, ast.Try):
                    handle(n.body)
                    for h in n.handlers:
                        handle(h.body)
                    handle(n.orelse)
                    handle(n.finalbody)
        handle(m.tree.body)

    def make_class(self, n, m):
        ci = ClassInfo(n.name, n, m)
        for d in n.decorator_list:
            dn = _dec_name(d)
            if dn.endswith("dataclass") and "register" not in dn:
                ci.is_dataclass = True
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(s.name, s, m, ci)
                fi.decorators = [_dec_name(d) for d in s.decorator_list]
                self.nfuncs += 1
                if any(d.endswith(".setter") for d in fi.decorators):
                    fi.kind = "setter"
                    ci.setters[s.name] = fi
                elif any(d == "property" or d.endswith("cached_property") for d in fi.decorators):
                    fi.kind = "property"
                    ci.props[s.name] = fi
                else:
                    if "staticmethod" in fi.decorators:
                        fi.kind = "static"
                    elif "classmethod" in fi.decorators:
                        fi.kind = "classmethod"
                    ci.methods[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        # method alias
                        if isinstance(s.value, ast.Name) and s.value.id in ci.methods:
                            ci.methods[t.id] = ci.methods[s.value.id]
                        else:
                            ci.attrs[mangled(ci.name, t.id)] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                ci.ann_fields.append((s.target.id, s.value))
                if s.value is not None:
                    ci.attrs[mangled(ci.name, s.target.id)] = s.value
        return ci

    def _resolve_bases(self, ci):
        ci.bases = []
        for b in ci.node.bases:
            r = self.resolve_expr_static(ci.module, b)
            if r and r[0] == "class":
                ci.bases.append(r[1])

    def resolve_expr_static(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr_static(m, e.value)
            if b and b[0] == "module":
                return self.resolve(b[1], e.attr)
        return None

    def resolve(self, m, name, depth=0):
        """-> ('func',fi)|('class',ci)|('module',mi)|('ext',dotted)|('assign',m,node)|None"""
        if depth > 12:
            return None
        g = m.globals.get(name)
        if g is None:
            sub = f"{m.name}.{name}"
            if m.is_pkg and sub in self.modules:
                return ("module", self.modules[sub])
            for base in m.globals.get("*", []) or []:
                if base in self.modules:
                    r = self.resolve(self.modules[base], name, depth + 1)
                    if r:
                        return r
            return None
        if g[0] in ("func", "class"):
            return g
        if g[0] == "import":
            if g[1] in self.modules:
                return ("module", self.modules[g[1]])
            return ("ext", g[1])
        if g[0] == "from":
            _, base, nm = g
            if base in self.modules:
                bm = self.modules[base]
                if bm is m and nm == name:
                    sub = f"{base}.{nm}"
                    if sub in self.modules:
                        return ("module", self.modules[sub])
                    return None
                r = self.resolve(bm, nm, depth + 1)
                if r:
                    return r
                sub = f"{base}.{nm}"
                if sub in self.modules:
                    return ("module", self.modules[sub])
                return ("ext", f"{base}.{nm}")
            if f"{base}.{nm}" in self.modules:
                return ("module", self.modules[f"{base}.{nm}"])
            return ("ext", f"{base}.{nm}")
        if g[0] == "assign":
            return ("assign", m, g[1])
        return None

    def mro(self, ci):
        if ci._mro is not None:
            return ci._mro
        seqs = [list(self.mro(b)) for b in ci.bases] + [list(ci.bases)]
        out = [ci]
        while any(seqs):
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]
                elif c in s:
                    s.remove(c)
        ci._mro = out
        return out

    def find(self, ci, name, after=None, kinds=("methods",)):
        mro = self.mro(ci)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            for k in kinds:
                d = getattr(c, k)
                if name in d:
                    return k, d[name], c
        return None

    def module(self, short):
        name = f"{PKG}.{short}" if short else PKG
        if name not in self.modules:
            raise AnalysisError(f"module {name} not found")
        return self.modules[name]

    def get_class(self, name, module=None):
        out = []
        for m in self.modules.values():
            g = m.globals.get(name)
            if g and g[0] == "class" and (module is None or m.name.endswith(module)):
                out.append(g[1])
        if not out:
            raise AnalysisError(f"class {name} not found in the package")
        return out[0]

    def get_func(self, module, name):
        """module-level function, following re-exports."""
        m = self.module(module)
        r = self.resolve(m, name)
        if not r or r[0] != "func":
            raise AnalysisError(f"function {name} not found in {module}")
        return r[1]

    def subclasses(self, base):
        out = []
        for m in self.modules.values():
            for g in m.globals.values():
                if isinstance(g, tuple) and g[0] == "class":
                    if base in self.mro(g[1]) and g[1] is not base:
                        out.append(g[1])
        return out
