"""Parsed view of the package under analysis (syntax trees only, nothing is imported from it)."""
import ast
import builtins
import os

from .align import align
from .normal import normalize

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "modulegraph2"


class AnalysisBroken(Exception):
    """The analysis cannot run (missing anchor, unparsable tree, ...): an error exit."""


class FuncInfo:
    def __init__(self, module, node, cls=None):
        self.module, self.node, self.cls = module, node, cls
        self.name = node.name
        self.qual = f"{module.name}:{cls.name + '.' if cls else ''}{node.name}"
        self.decorators = []
        for d in node.decorator_list:
            self.decorators.append(ast.unparse(d).split("(")[0].split(".")[-1])
        self.is_gen = has_yield(node)

    @property
    def is_cm(self):
        return "contextmanager" in self.decorators

    @property
    def is_property(self):
        return any(d in ("property", "cached_property") for d in self.decorators)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def __repr__(self):
        return f"<{self.qual}>"


def has_yield(fn):
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.qual = f"{module.name}:{node.name}"
        self.methods, self.fields, self.consts = {}, [], {}
        self.dataclass = self.frozen = False
        self.dc_init = True
        for d in node.decorator_list:
            txt = ast.unparse(d)
            if txt.split("(")[0].split(".")[-1] == "dataclass":
                self.dataclass = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == "frozen" and getattr(k.value, "value", False):
                            self.frozen = True
                        if k.arg == "init" and getattr(k.value, "value", True) is False:
                            self.dc_init = False
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = FuncInfo(module, st, self)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields.append((st.target.id, st.annotation, st.value))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = st.value
        self.base_exprs = node.bases

    def __repr__(self):
        return f"<class {self.qual}>"


class ModuleInfo:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, "rb") as fp:
            self.source = fp.read()
        try:
            self.tree = ast.parse(self.source, path)
        except SyntaxError as exc:
            raise AnalysisBroken(f"{path}: {exc}")
        self.names = {}

    def bind(self):
        normalize(self.tree)
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[st.name] = ("func", FuncInfo(self, st))
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ("class", ClassInfo(self, st))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = ("import", a.name)
                    else:
                        top = a.name.split(".")[0]
                        self.names[top] = ("import", top)
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([base] if base else []))
                for a in st.names:
                    self.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("const", st.value)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.names[st.target.id] = ("const", st.value)
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                self._collect([s for f in ("body", "orelse", "finalbody") for s in getattr(st, f, [])])


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.dir = os.path.join(self.root, PKG)
        self.modules = {}
        if not os.path.isdir(self.dir):
            raise AnalysisBroken(f"no package at {self.dir}")
        for dp, dn, fns in sorted(os.walk(self.dir)):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for fn in sorted(fns):
                if fn.endswith(".py"):
                    rel = os.path.relpath(os.path.join(dp, fn), self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.modules[rel] = ModuleInfo(rel, os.path.join(dp, fn))
        self.renamed = [] if os.environ.get("SA_NO_ALIGN") else align({n: m.tree for n, m in self.modules.items()})
        for m in self.modules.values():
            m.bind()
        import hashlib
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + b"\0" + self.modules[n].source)
        self.digest = h.hexdigest()
        self.classes = {}
        for m in self.modules.values():
            for b in m.names.values():
                if b[0] == "class":
                    self.classes[b[1].name] = b[1]
        for c in self.classes.values():
            c.bases = []
            c.ext_bases = []
            for b in c.base_exprs:
                txt = ast.unparse(b).split("[")[0]
                r = self.resolve_dotted(c.module, txt)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                else:
                    c.ext_bases.append(r[1] if r else txt)
        self._sub = {}
        self._has = {}

    # -- names ------------------------------------------------------------
    def lookup(self, module, name, _seen=()):
        """Binding of a global name: ('func',FuncInfo)|('class',ClassInfo)|('ext',dotted)|('mod',name)|('const',expr,module,name)|None"""
        b = module.names.get(name)
        if b is None:
            sub = f"{module.name}.{name}"
            if module.path.endswith("__init__.py") and sub in self.modules:
                return ("mod", sub)
            return None
        if b[0] in ("func", "class"):
            return b
        if b[0] == "const":
            return ("const", b[1], module, name)
        if b[0] == "import":
            if b[1] in self.modules:
                return ("mod", b[1])
            return ("ext", b[1])
        _, base, nm = b
        if base in self.modules:
            if (base, nm) in _seen:
                return None
            sub = f"{base}.{nm}"
            r = self.lookup(self.modules[base], nm, _seen + ((base, nm),))
            if r is None and sub in self.modules:
                return ("mod", sub)
            return r
        return ("ext", f"{base}.{nm}")

    def resolve_dotted(self, module, dotted):
        parts = dotted.split(".")
        r = self.lookup(module, parts[0])
        if r is None:
            if hasattr(builtins, parts[0]) and len(parts) == 1:
                return ("ext", parts[0])
            return None
        for p in parts[1:]:
            if r is None:
                return None
            if r[0] == "mod":
                r = self.lookup(self.modules[r[1]], p)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + p)
            else:
                return None
        return r

    # -- classes ------------------------------------------------------------
    def mro(self, cls):
        out = [cls]
        for b in cls.bases:
            for c in self.mro(b):
                if c not in out:
                    out.append(c)
        return out

    def subclasses(self, name):
        """Names of the repo classes that are `name` or inherit from it."""
        if name not in self._sub:
            base = self.classes.get(name)
            self._sub[name] = frozenset(
                c.name for c in self.classes.values() if base is not None and base in self.mro(c)
            )
        return self._sub[name]

    def may_have(self, cname, attr):
        """Can an object of the class (or of a class below it) have the attribute?"""
        key = (cname, attr)
        if key not in self._has:
            ok = False
            for x in self.subclasses(cname) | {cname}:
                for c in self.mro(self.classes[x]):
                    ok = ok or attr in c.methods or attr in c.consts or any(f == attr for f, _, _ in c.fields) or any(e.split(".")[-1] not in ("object", "Generic", "Protocol", "ABC") for e in c.ext_bases) \
                        or "__getattr__" in c.methods or any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) for n in ast.walk(c.node)) \
                        or any(isinstance(n, (ast.ClassDef,)) and n is not c.node and n.name == attr for n in c.node.body) or any(isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("setattr", "__setattr__") for n in ast.walk(c.node))
            self._has[key] = ok
        return self._has[key]

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def field_ann(self, cls, name):
        for c in self.mro(cls):
            for f, ann, _ in c.fields:
                if f == name:
                    return ann, c.module
        return None

    def dc_fields(self, cls):
        out = {}
        for c in reversed(self.mro(cls)):
            if c.dataclass:
                for f, ann, dflt in c.fields:
                    out[f] = dflt
        return out

    def func(self, qual):
        """qual: 'module:Class.method' or 'module:function' (module without package prefix)."""
        mod, _, path = qual.partition(":")
        m = self.modules.get(f"{PKG}.{mod}" if mod else PKG)
        if m is None:
            return None
        parts = path.split(".")
        b = self.lookup(m, parts[0])
        if b is None:
            return None
        if len(parts) == 1:
            return b[1] if b[0] == "func" else None
        if b[0] != "class":
            return None
        return self.find_method(b[1], parts[1])

    def all_funcs(self):
        for m in self.modules.values():
            for b in m.names.values():
                if b[0] == "func" and b[1].module is m:
                    yield b[1]
                elif b[0] == "class" and b[1].module is m:
                    yield from b[1].methods.values()
