"""Parsing of the analysed package: modules, classes, functions, imports."""
import ast
import hashlib
import os

from .values import ClassV, ExtV, FuncV, ModV, Undecided

REPO = os.environ.get("SA_REPO", "/repo")
PACKAGE = "meshiphi"


class AnchorLost(Exception):
    pass


class ModuleInfo:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.env = {}
        self.loaded = False

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


class Program:
    def __init__(self, repo=REPO, package=PACKAGE):
        self.repo = repo
        self.modules = {}
        self.nfunc = 0
        self.sources = {}
        root = os.path.join(repo, package)
        if not os.path.isdir(root):
            raise AnchorLost(f"package directory {root} is missing")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(rel)
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.sources[name] = src
                tree = ast.parse(src, p)
                self.modules[name] = ModuleInfo(name, p, tree, is_pkg)
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.nfunc += 1
        self._interp = None

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.sources):
            h.update(n.encode())
            h.update(self.sources[n].encode())
        return h.hexdigest()[:16]

    # ---- anchors, by what the public API calls them
    def module(self, name):
        if name not in self.modules:
            raise AnchorLost(f"module {name} not found")
        m = self.modules[name]
        self.load(m)
        return m

    def load(self, m):
        if m.loaded:
            return
        m.loaded = True
        from .interp import Interp
        it = Interp(self)
        it.exec_module(m)

    def cls(self, name):
        mod, _, c = name.rpartition(".")
        m = self.module(mod)
        v = m.env.get(c)
        if not isinstance(v, ClassV):
            raise AnchorLost(f"class {name} not found")
        return v

    def fn(self, name):
        mod, _, c = name.rpartition(".")
        if mod in self.modules:
            m = self.module(mod)
            v = m.env.get(c)
            if not isinstance(v, FuncV):
                raise AnchorLost(f"function {name} not found")
            return v
        v, owner = self.cls(mod).lookup(c)
        if v is None:
            raise AnchorLost(f"method {name} not found")
        return v

    def resolve_import(self, name):
        """dotted name -> value"""
        if name in self.modules:
            m = self.modules[name]
            return ModV(m)
        if name == PACKAGE or name.startswith(PACKAGE + "."):
            mod, _, attr = name.rpartition(".")
            if mod in self.modules:
                m = self.module(mod)
                if attr in m.env:
                    return m.env[attr]
                raise Undecided(f"cannot resolve {name}")
        return ExtV(name)
