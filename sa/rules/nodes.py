"""C17-C21: node classes and attributes, import state, distributions."""
import importlib
import importlib.abc
import importlib.machinery
import zipimport

import ast

from ..callgraph import CallGraph
from ..rulekit import *  # noqa: F401,F403
from ..rulekit import C, FALSE, NONE, SELF, TRUE, P, calls, pretty, same, walk, is_const
from ..repo import AnalysisBroken

SPEC = ("sym", "spec")
DECODE = {
    ".get_source": ("SyntaxError", "UnicodeDecodeError", "ImportError"),
    ".get_code": ("SyntaxError", "ValueError", "ImportError", "EOFError", "TypeError", "RecursionError", "MemoryError"),
    "compile": ("SyntaxError", "ValueError", "RecursionError", "MemoryError"),
    "ast.parse": ("SyntaxError", "ValueError", "RecursionError", "MemoryError"),
    "_contains_datafiles": ("OSError",),
}


# ---------------------------------------------------------------------------- loaders
class _InMemory(importlib.abc.InspectLoader):
    def get_source(self, fullname):
        raise NotImplementedError


class _NamespaceLoader:
    pass


def sample_loaders():
    """One value per kind of loader, used only to decide which conditions on the loader can hold for it."""
    m = importlib.machinery
    ns = m.NamespaceLoader.__new__(m.NamespaceLoader) if hasattr(m, "NamespaceLoader") else _NamespaceLoader()
    return {
        "no loader": (None, "namespace"),
        "namespace loader": (ns, "namespace"),
        "old namespace loader": (_NamespaceLoader(), "namespace"),
        "built-in importer": (m.BuiltinImporter, "builtin"),
        "frozen importer": (m.FrozenImporter, "frozen"),
        "extension loader": (m.ExtensionFileLoader("x", "/x.so"), "extension"),
        "source loader": (m.SourceFileLoader("x", "/x.py"), "code"),
        "bytecode loader": (m.SourcelessFileLoader("x", "/x.pyc"), "code"),
        "zip importer": (zipimport.zipimporter.__new__(zipimport.zipimporter), "code"),
        "other inspect loader": (_InMemory(), "code"),
    }


def resolve(name):
    """The standard-library object a dotted name refers to."""
    mod, _, attr_ = name.rpartition(".")
    if not mod:
        import builtins
        return getattr(builtins, attr_, None)
    if mod.split(".")[0] not in ("importlib", "zipimport", "types", "abc", "typing"):
        return None
    try:
        return getattr(importlib.import_module(mod), attr_, None)
    except ImportError:
        return None


def consistent(p, L, v):
    """Can the path be taken when the loader is `v`? Conditions that are not understood count as possible."""
    def val(t):
        if t == L:
            return True, v
        if t in (("call", "type", (L,), (), 0), ("type", L)):
            return True, type(v)
        if t[0] == "attr" and t[2] == "__class__" and t[1] == L:
            return True, type(v)
        if t[0] == "attr" and t[2] in ("__name__", "__module__", "__qualname__"):
            ok, x = val(t[1])
            if ok and hasattr(x, t[2]):
                return True, getattr(x, t[2])
        if is_const(t):
            return True, t[2]
        if t[0] == "ext":
            x = resolve(t[1])
            return x is not None, x
        return False, None
    if L in p.st.types:
        S = p.st.types[L]
        if v is None and "None" not in S or v is not None and S == frozenset(["None"]):
            return False
    for t, d in p.st.dom.items():
        ok, x = val(t)
        if ok:
            cs = [val(c) for c in d[1]]
            if all(c[0] for c in cs) and any(c[1] is x or c[1] == x for c in cs) != (d[0] == "in"):
                return False
    for k, b in p.st.facts.items():
        if k[0] == "isinst" and k[1] == L and isinstance(k[2], str):
            if k[2] == "None":
                if (v is None) != b:
                    return False
                continue
            c = resolve(k[2])
            if isinstance(c, type) and not (type(v) is zipimport.zipimporter and c is importlib.abc.InspectLoader):
                if isinstance(v, c) != b:
                    return False
        elif k[0] == "eq":
            (o1, a), (o2, c) = val(k[1]), val(k[2])
            if o1 and o2 and (a is c or a == c) != b:
                return False
        elif k[0] in ("truth", "nonempty") and k[1] == L and isinstance(k[1], tuple):
            if (v is not None) != b:
                return False
        elif k[0] == "truth" and k[1][0] == "call" and k[1][1] == "hasattr" and k[1][2][0] == L and is_const(k[1][2][1]):
            if hasattr(v, k[1][2][1][2]) != b:
                return False
        elif k[0] == "hasattr" and k[1] == L and len(k) == 3:
            a = k[2][2] if isinstance(k[2], tuple) and is_const(k[2]) else k[2]
            if isinstance(a, str) and hasattr(v, a) != b:
                return False
    return True


# ---------------------------------------------------------------------------- node_for_spec
class SpecModel:
    def __init__(self, ck):
        self.ck = ck
        fi = ck.repo.func("_graphbuilder:node_for_spec")
        if fi is None:
            raise AnalysisBroken("node_for_spec not found")
        self.spec, self.path = (("sym", x) for x in fi.params()[:2])
        self.L = ("attr", self.spec, "loader")
        self.name = ("attr", self.spec, "name")
        self.origin = ("attr", self.spec, "origin")
        self.C = "node_for_spec"
        eng = ck.engine(opaque={"_contains_datafiles", "distribution_for_file", "extract_ast_info", "extract_bytecode_info"}, raises=DECODE, raise_only=set(DECODE))
        self.paths = ck.run(eng, fi)
        self.kinds = {}
        for label, (v, kind) in sample_loaders().items():
            ps = [p for p in self.paths if consistent(p, self.L, v)]
            if kind == "builtin":  # built-in modules are never packages
                ps = [p for p in ps if not any(p.truthy(e.ret) for e in self.queries(p, "is_package"))]
            if not ps:
                raise AnalysisBroken(f"no path of node_for_spec handles a {label}")
            self.kinds[label] = (kind, ps)

    def each(self, *kinds):
        for label, (kind, ps) in self.kinds.items():
            if not kinds or kind in kinds:
                for p in ps:
                    yield label, kind, p

    def is_loader(self, t):
        """Is t the loader (or one of the importer classes that stand for it on this path)?"""
        return t == self.L or (t is not None and t[0] == "ext" and t[1].split(".")[-1] in ("FrozenImporter", "BuiltinImporter"))

    def queries(self, p, meth):
        """Calls loader.<meth>(name)."""
        out = []
        for e in p.evs("call"):
            if isinstance(e.fn, str) and e.fn.split(".")[-1] == meth:
                a = [x for x in (e.args.values() if isinstance(e.args, dict) else e.args)]
                if self.name in a or any(same(p, x, self.name) for x in a):
                    out.append(e)
        return out

    def failed(self, p):
        """Events whose exception was caught or propagates."""
        out = {}
        for e in p.evs("handler"):
            x = e.args[0] if e.args else None
            if x and x[0] == "exc" and isinstance(x[2], tuple) and len(x[2]) == 2:
                out[x[2][1]] = x[1]
        return out

    def source(self, p):
        """('none'|'some'|'failed'|'unknown'|'absent', source term)"""
        q_ = self.queries(p, "get_source")
        if not q_:
            return "absent", None
        f = self.failed(p)
        for e in q_:
            if e.idx in f:
                return "failed", e.ret
        n = p.is_none(q_[-1].ret)
        return ("unknown" if n is None else "none" if n else "some"), q_[-1].ret

    def code(self, p):
        q_ = self.queries(p, "get_code")
        if not q_:
            return "absent", None
        f = self.failed(p)
        for e in q_:
            if e.idx in f:
                return "failed", e.ret
        return "some", q_[-1].ret

    def parse(self, p, src):
        """('absent'|'failed'|'some', AST term)"""
        f = self.failed(p)
        r = "absent", None
        for e in p.evs("call", ("compile", "ast.parse")):
            if src is not None and e.arg("source", 0) == src:
                if e.idx in f:
                    return "failed", e.ret
                r = "some", e.ret
        return r

    def result(self, p):
        """(node, imports) returned."""
        v = p.value
        if v is not None and v[0] == "tup" and len(v[1]) == 2:
            return v[1]
        return None, None

    def core(self, p, node):
        """(package node or None, init/module node)"""
        c = p.cls(node)
        if c and all(x in ("Package", "FrozenPackage") for x in c):
            init = p.st.heap.get((node, "init_module"))
            return node, init
        return None, node


def cls_of(p, t):
    c = p.cls(t) if t is not None else None
    if c and len(c) == 1:
        return next(iter(c)).rstrip("+")
    return None


def contents(p, t):
    """Container contents, or None when t is no container built on this path."""
    if t is None:
        return None
    if t[0] == "tup":
        return [("item", x) for x in t[1]]
    if t in p.st.cont:
        return [(i.mode, i.val) for i in p.st.cont[t]]
    return None


def no_items(p, t):
    c = contents(p, t)
    return c is not None and not c


def same_items(p, t, x):
    """Does t hold exactly the items of x (x itself or a copy)?"""
    if t == x:
        return True
    c = contents(p, t)
    if c is not None:
        return c == [("seg", x)] or c == [("star", x)]
    if t[0] == "call" and t[1] in ("list", "tuple", "iter") and t[2] == (x,):
        return True
    return False


WRAP = {"Package", "FrozenPackage"}


def C17(ck):
    R = ck.rule
    R("class", "the class of the node follows the kind of loader and whether there is source")
    R("package", "the module is wrapped in a package node exactly when the loader says it is a package")
    R("invalid", "source or code that cannot be decoded or compiled gives an InvalidModule without imports; nothing is raised")
    R("imports", "the imports are those of the source when there is source, otherwise those of the bytecode; none for other kinds")
    m = SpecModel(ck)
    simple = {"namespace": "NamespacePackage", "builtin": "BuiltinModule", "extension": "ExtensionModule"}
    seen = set()
    for label, kind, p in m.each():
        w = p.where()
        cond = f"{label}: {p.cond_text()}"
        if p.kind == "raise":
            ck.ob("invalid" if kind in ("code", "frozen") else "class", False, m.C, w, f"raises {pretty(p.value)} instead of giving a node ({cond})")
            continue
        node, imports = m.result(p)
        if not ck.ob("class", node is not None and cls_of(p, node) is not None, m.C, w, f"result is {pretty(p.value)}, not a node and its imports ({cond})"):
            continue
        pkg, core = m.core(p, node)
        c = cls_of(p, core)
        if kind in simple:
            ck.ob("class", c == simple[kind], m.C, w, f"a {label} gives a {c} ({cond})")
            ck.ob("imports", no_items(p, imports), m.C, w, f"a {label} reports imports {pretty(imports)}")
            seen.add(c)
        else:
            s, src = m.source(p)
            k, code = m.code(p)
            a, tree = m.parse(p, src)
            bad = "failed" in (s, k, a)
            if bad:
                ck.ob("invalid", c == "InvalidModule", m.C, w, f"code that cannot be decoded or compiled gives a {c} ({cond})")
                x = [e for e in calls(p, "extract_bytecode_info") if e.args.get("code") == code]
                usable = k == "some" and x and same_items(p, imports, ("item", x[-1].ret, C(0)))
                ck.ob("invalid", no_items(p, imports) or bool(usable), m.C, w, f"invalid code has imports {pretty(imports)} ({cond})")
                seen.add(("bad", "source" if s == "failed" else "parse" if a == "failed" else "code"))
            else:
                if kind == "frozen":
                    want = "FrozenModule"
                else:
                    want = {"some": "SourceModule", "none": "BytecodeModule"}.get(s)
                ck.ob("class", want is not None and c == want, m.C, w, f"a {label} whose source is {'available' if s == 'some' else 'not available' if s == 'none' else 'not looked at'} gives a {c} ({cond})")
                if s in ("some", "unknown"):
                    x = [e for e in calls(p, "extract_ast_info") if e.args.get("node") == tree]
                    ok = a == "some" and len(x) >= 1 and same_items(p, imports, x[-1].ret)
                    ck.ob("imports", ok, m.C, w, f"the module has source but its imports are {pretty(imports)} ({cond})")
                else:
                    x = [e for e in calls(p, "extract_bytecode_info") if e.args.get("code") == code]
                    ok = k == "some" and len(x) >= 1 and same_items(p, imports, ("item", x[-1].ret, C(0)))
                    ck.ob("imports", ok, m.C, w, f"the module has no source but its imports are {pretty(imports)} ({cond})")
                seen.add(c)
        if kind in ("code", "frozen", "extension"):
            q_ = m.queries(p, "is_package")
            v = p.truthy(q_[-1].ret) if q_ else None
            ck.ob("package", v is not None and v == (pkg is not None), m.C, w, f"is_package() is {v}, the node is {'' if pkg else 'not '}a package ({cond})")
            if pkg is not None:
                pc = cls_of(p, pkg)
                ck.ob("package", pc == ("FrozenPackage" if kind == "frozen" else "Package"), m.C, w, f"a package of a {label} is a {pc}")
                seen.add(pc)
        elif pkg is not None:
            ck.ob("package", False, m.C, w, f"a {label} gives a package ({cond})")
    want = {"NamespacePackage", "BuiltinModule", "ExtensionModule", "FrozenModule", "SourceModule", "BytecodeModule", "Package", "FrozenPackage", ("bad", "source"), ("bad", "parse"), ("bad", "code")}
    for x in sorted(want - seen, key=str):
        ck.ob("class", False, m.C, m.C, f"no path gives {x}")
    ck.instances("class", 20)
    ck.instances("package", 20)
    ck.instances("invalid", 10)
    ck.assumptions.append("the sample loaders stand for their kinds; assert statements hold (a namespace package has a search path, get_code gives code)")


# ---------------------------------------------------------------------------- import state
MODULES, PATH = ("ext", "sys.modules"), ("ext", "sys.path")


def touches(fn_node, module_tree):
    """Does the function mention sys.modules or sys.path?"""
    names = {}
    for n in ast.walk(module_tree):
        if isinstance(n, ast.ImportFrom) and n.module == "sys":
            for a in n.names:
                if a.name in ("modules", "path"):
                    names[a.asname or a.name] = a.name
    for n in ast.walk(fn_node):
        if isinstance(n, ast.Attribute) and n.attr in ("modules", "path") and isinstance(n.value, ast.Name) and n.value.id in ("sys", "_sys"):
            return True
        if isinstance(n, ast.Name) and n.id in names:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == "sys":
            return True
    return False


def copy_of(p, v, what, dirty):
    """Is v a copy of `what` that was taken while it was unchanged?"""
    if v not in p.st.cont or v[0] != "obj":
        return False
    c = [(i.mode, i.val) for i in p.st.cont[v]]
    return c == [("seg", what)] and (dirty is None or v[1] <= dirty.nobj)


def net_effect(p):
    """{what: (event, text)} for changes of the import state that are still there when the path ends."""
    mods, path, allm = {}, None, None
    bound = {}
    for e in p.events:
        if e.kind == "setattr" and e.recv == ("ext", "sys") and e.fn in ("modules", "path"):
            # another list or dict object, even an equal one, leaves the changes in the object others hold
            if e.args[-1] == (PATH if e.fn == "path" else MODULES):
                bound.pop(e.fn, None)
            else:
                bound.setdefault(e.fn, e)
            continue
        if e.recv == PATH and e.kind in ("mut", "setslice", "setpart", "dset", "ddel", "pop"):
            if e.kind == "setslice" and e.fn == "[:]" and copy_of(p, e.args[-1], PATH, path):
                path = None
            elif e.kind == "mut" and e.fn in ("extend",) and path is not None and path.fn == "clear" and copy_of(p, e.args[-1], PATH, path):
                path = None
            elif e.fn == "clear" or path is None:
                path = e
            continue
        if e.recv != MODULES:
            continue
        a = list(e.args.values()) if isinstance(e.args, dict) else list(e.args)
        if e.kind == "dset":
            k, v = a[0], a[1]
            old = mods.get(k)
            if old is not None and old[0] == "removed" and v in (old[2], ("item", MODULES, k)):
                del mods[k]
            elif old is not None and old[0] == "added" and old[2] is not None and v == old[2]:
                del mods[k]
            elif v == ("item", MODULES, k) or (v[0] == "call" and v[1].endswith(".get") and MODULES in v[2]) and k in v[2]:
                mods.pop(k, None)
            elif old is None:
                mods[k] = ("added", e, ("item", MODULES, k))
        elif e.kind in ("ddel", "pop"):
            k = a[0] if a else None
            old = mods.get(k)
            if old is not None and old[0] == "added" and dict(old[1].kw).get("was") == FALSE:
                del mods[k]
            elif old is None:
                mods[k] = ("removed", e, e.ret)
        elif e.kind in ("mut", "setpart", "setslice"):
            if e.fn == "update" and allm is not None and a and copy_of(p, a[0], MODULES, allm):
                allm = None
                mods.clear()
            elif e.fn in ("clear", "popitem", "update", "setdefault"):
                allm = allm or e
    out = []
    for k, (what, e, _) in mods.items():
        v = e.args[1] if what == "added" and len(e.args) > 1 else None
        out.append((e, what, k, v))
    path, allm = path or bound.get("path"), allm or bound.get("modules")
    if path is not None:
        out.append((path, "path", None, None))
    if allm is not None:
        out.append((allm, "all", None, None))
    return out


def site(p, e, what, k, v):
    """A name for the place of a change that does not depend on how the code is laid out."""
    import os
    mod = os.path.splitext(os.path.basename(e.pos[0]))[0]
    if what == "path":
        return f"{mod}/sys.path"
    if what == "all":
        return f"{mod}/sys.modules"
    if what == "added":
        c = cls_of(p, v)
        return f"{mod}/add:{c or 'entry'}"
    names = sorted({str(y[2]) for y in walk(k) if y and y[0] == "c" and isinstance(y[2], str) and len(y[2]) > 1 and y[2] != ".moves."}
                   | {y[2] for y in walk(k) if y and y[0] == "attr" and y[2] not in ("name", "loader")}
                   | {y[1].split(":")[-1] for y in walk(k) if y and y[0] == "glob"})
    return f"{mod}/remove:{'+'.join(names) or 'entry'}".replace(" ", "_")


STATE_RAISES = {
    "importlib.util.find_spec": ("ValueError", "AttributeError", "ModuleNotFoundError", "ImportError", "Exception", "SystemExit", "KeyboardInterrupt"),
}


class StateModel:
    def __init__(self, ck):
        self.ck = ck
        self.g = CallGraph(ck.repo)
        infos = {id(b[1].node): b[1] for mod in ck.repo.modules.values() for b in mod.names.values() if b[0] == "func"}
        infos.update((id(fi.node), fi) for c in ck.repo.classes.values() for fi in c.methods.values())
        self.info = {f: infos[id(f.node)] for f in self.g.fns if id(f.node) in infos}
        self.fn = {fi: f for f, fi in self.info.items()}
        self.T = {fi for fi in self.info.values() if touches(fi.node, fi.module.tree)}
        self.given = self.handed_on()
        self.managers = {f for f in self.T if f.is_gen} | {f for f in self.T if f.name in ("__enter__", "__exit__")}
        # functions of its own module that a context manager uses
        self.helpers = {self.info[h] for f in self.managers for h in self.g.reach([self.fn[f]]) if h in self.info and self.info[h].module is f.module} - self.managers

    def handed_on(self):
        """{function: parameters that are given sys.path itself}"""
        given = {}
        changed = True
        while changed:
            changed = False
            for h in self.g.fns:
                mine = given.get(self.info.get(h), ())
                for n in ast.walk(h.node):
                    if not isinstance(n, ast.Call):
                        continue
                    args = [(i, a) for i, a in enumerate(n.args)] + [(k.arg, k.value) for k in n.keywords if k.arg]
                    hot = [k for k, a in args if ast.unparse(a) in ("sys.path", "sys.modules") or isinstance(a, ast.Name) and a.id in mine]
                    if not hot:
                        continue
                    for g in self.g._resolve(h, n.func)[0]:
                        fi = self.info.get(g)
                        if fi is None:
                            continue
                        ps = fi.params()
                        if fi.cls is not None and not fi.is_static:
                            ps = ps[1:]
                        for k in hot:
                            name = k if isinstance(k, str) else ps[k] if k < len(ps) else None
                            if name and name not in given.setdefault(fi, {}):
                                v = next(a for j, a in args if j == k)
                                given[fi][name] = MODULES if ast.unparse(v) == "sys.modules" else mine[v.id] if isinstance(v, ast.Name) and v.id in mine else PATH
                                changed = True
        return given

    def callers(self, f):
        """Functions that call f (nested functions count as part of the function they are in)."""
        out = set()
        for h in self.g.fns:
            if f.name in ("__enter__", "__exit__", "__init__"):
                hit = any(isinstance(n, ast.Name) and n.id == f.cls.name for n in ast.walk(h.node))
            else:
                hit = any(x[0] is self.fn[f] for x in h.calls)
            if hit:
                while h.outer is not None:
                    h = h.outer
                if h in self.info:
                    out.add(self.info[h])
        return out

    def entries(self):
        out = {f for f in self.T if f.name not in ("__enter__", "__exit__")} | set(self.given)
        for f in self.managers:
            out |= self.callers(f)
        return sorted(out, key=lambda f: f.qual)

    def run(self, f, inline=()):
        keep = self.managers | set(inline) | {f} | {h for h in self.T if (h.module is f.module or h in self.helpers) and h.name not in ("node_for_spec", "all_distributions", "distribution_for_file", "distribution_named")}
        big = {h for h in keep if h is not f and h not in inline and h not in self.managers and (h.cls is not None and h.cls.name == "ModuleGraph" and not self.small(h))}
        eng = self.ck.engine(opaque_pred=lambda fi: fi is not f and (fi not in keep or fi in big) and not self.plain(fi), raise_all=("Exception", "KeyboardInterrupt"), raises=STATE_RAISES)

        def oy(v, s):
            return [(None, s.fork()), (("raise", ("exc", "KeyboardInterrupt", ("yield", 0))), s.fork()), (("raise", ("exc", "Exception", ("yield", 0))), s)]
        kw = {"on_yield": oy} if f.is_gen else {}
        if self.given.get(f):
            kw["args"] = dict(self.given[f])
        return self.ck.run(eng, f, init=graph_init(), **kw)

    def small(self, h):
        return sum(1 for _ in ast.walk(h.node)) < 400

    def plain(self, fi):
        """Constructors and methods of small classes are looked into."""
        if fi.cls is None and fi.name.startswith("_") and not fi.is_gen:
            body = [s for s in fi.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            return len(body) == 1 and isinstance(body[0], ast.Return)
        return fi.cls is not None and fi.cls.name not in ("ModuleGraph",) and fi in self.managers or fi.name == "__init__" and fi.cls is not None and fi.cls.name == "FakePackage"

    def dirt(self, f, inline=()):
        out = {}
        for p in self.run(f, inline):
            for e, what, k, v in net_effect(p):
                out.setdefault(site(p, e, what, k, v), (e, p, what, k))
        return out


def C18(ck):
    R = ck.rule
    R("modules", "every sys.modules entry that is replaced, added or removed is put back on every way out")
    R("path", "every change of sys.path is undone on every way out")
    m = StateModel(ck)
    es = m.entries()
    if len(es) < 4:
        raise AnalysisBroken("functions that change the import state not found")
    for f in es:
        d = m.dirt(f)
        if not d:
            ck.ob("modules", True, f.qual, "", "")
            ck.ob("path", True, f.qual, "", "")
            continue
        callers = [h for h in m.callers(f) if h is not f]
        excused = set()
        if callers and all(h in m.T or h in es for h in callers) and f.name.startswith("_"):
            rest = set()
            for h in callers:
                rest |= set(m.dirt(h, {f}))
            excused = set(d) - rest
        for s, (e, p, what, k) in d.items():
            if s in excused:
                continue
            txt = {"path": "sys.path is not restored", "all": "sys.modules is not restored"}.get(what) or \
                f"sys.modules[{pretty(k)}] is {'replaced or added' if what == 'added' else 'removed'} and not put back"
            how = f"when {p.value[1]} is raised" if p.kind == "raise" else "on return"
            ck.ob("path" if what == "path" else "modules", False, s, e.where, f"{txt} {how}")
    ck.instances("modules", 4)
    ck.assumptions.append("assert statements hold; "
                          "entries the import system itself adds while looking up parents are not replaced entries")


# ---------------------------------------------------------------------------- attributes
def path_of(t):
    """x when t is pathlib.Path(x)."""
    if t is not None and t[0] in ("call",) and t[1].split(".")[-1] in ("Path", "PurePath") and len(t[2]) == 1:
        return t[2][0]
    return None


def fresh(p, t, kind):
    """Is t an empty container created on this path?"""
    return t in p.st.cont and t[0] == "obj" and not p.st.cont[t] and t[2] == kind


def parent_of(t):
    return ("attr", t, "parent")


def paths_of(p, t, x):
    """Is t the list [Path(loc) for loc in x]?"""
    c = contents(p, t)
    if c is None:
        if t is not None and t[0] == "coll":
            c = [(i[0], i[1]) for i in t[2]]
        else:
            return False
    if not c:
        return p.empty_iter(x) or no_items(p, x)
    for mode, v in c:
        a = path_of(v)
        if a is None or a[0] != "elem" or a[1] != x:
            return False
    return len(c) == 1


def C19(ck):
    R = ck.rule
    R("name", "a node carries the located name and loader")
    R("file", "a node carries the file it was located at, and the distribution that owns it; none for built-in and frozen modules")
    R("code", "a node carries its compiled code and its own sets of written and read globals")
    R("package", "a package node carries its directory, search path, init module and namespace type")
    R("data", "has_data_files tells whether there is a data file below the package")
    R("fresh", "every node has an attribute dictionary of its own")
    R("uses", "a module says it uses __import__ or __file__ iff it reads that global; packages have the globals of their init module, namespace packages have none")
    m = SpecModel(ck)
    for label, kind, p in m.each():
        if p.kind == "raise":
            ck.ob("data", not (isinstance(p.value[2], tuple) and p.value[2][0] == "_contains_datafiles"), m.C, p.where(), f"looking for data files ends with {pretty(p.value)}")
            continue
        node, _ = m.result(p)
        if node is None:
            continue
        pkg, core = m.core(p, node)
        attrs_rule(ck, m, label, kind, p, core)
        if pkg is not None:
            package_rule(ck, m, label, kind, p, pkg, core)
    datafiles_rule(ck)
    constructors_rule(ck)
    uses_rule(ck)
    for r in ("name", "file", "code", "package", "data", "fresh"):
        ck.instances(r, 5)
    ck.assumptions.append("the names and imports extract_bytecode_info gives are judged by C04")


def attrs_rule(ck, m, label, kind, p, N):
    w = p.where()
    h = lambda a: p.st.heap.get((N, a))  # noqa: E731
    cond = f"{label}: {p.cond_text()}"
    ck.ob("name", h("name") is not None and same(p, h("name"), m.name), m.C, w, f"the node's name is {h('name') and pretty(h('name'))} ({cond})")
    ck.ob("name", h("loader") is not None and (h("loader") == m.L or same(p, h("loader"), m.L)), m.C, w, f"the node's loader is {h('loader') and pretty(h('loader'))} ({cond})")
    d, f = h("distribution"), h("filename")
    none = p.is_none(m.origin)
    if kind in ("builtin", "frozen"):
        ck.ob("file", d == NONE and f == NONE, m.C, w, f"a {label} has file {pretty(f)} and distribution {pretty(d)}")
    else:
        if f == NONE:
            ck.ob("file", none is True, m.C, w, f"a module located at a file has no filename ({cond})")
        else:
            ck.ob("file", none is False and path_of(f) == m.origin, m.C, w, f"the filename is {pretty(f)} ({cond})")
        if kind == "namespace":
            ck.ob("file", d == NONE, m.C, w, f"a namespace package has distribution {pretty(d)}")
        elif d == NONE:
            ck.ob("file", none is True, m.C, w, f"a module located at a file has no distribution looked up ({cond})")
        else:
            e = [e for e in calls(p, "distribution_for_file") if e.ret == d]
            ok = none is False and e and e[-1].args.get("path") == m.path and (e[-1].args.get("filename") in (m.origin, f))
            ck.ob("file", bool(ok), m.C, w, f"the distribution is {pretty(d)} ({cond})")
    fresh_attrs(ck, p, N, w, cond)
    if kind == "namespace":
        sp = h("search_path")
        ck.ob("package", paths_of(p, sp, ("attr", m.spec, "submodule_search_locations")), m.C, w, f"the search path of a namespace package is {sp and pretty(sp)}")
        return
    gw, gr, code = h("globals_written"), h("globals_read"), h("code")
    k, cd = m.code(p)
    bad = "failed" in (k, m.source(p)[0], m.parse(p, m.source(p)[1])[0])
    if kind in ("builtin", "extension"):
        ck.ob("code", code == NONE and fresh(p, gw, "set") and fresh(p, gr, "set") and gw != gr, m.C, w, f"a {label} has code {pretty(code)} or shared sets of globals")
    elif bad and k != "some":
        ck.ob("code", code == NONE and fresh(p, gw, "set") and fresh(p, gr, "set") and gw != gr, m.C, w, f"a module without valid code has code {pretty(code)} or shared sets of globals ({cond})")
    else:
        x = [e for e in calls(p, "extract_bytecode_info") if e.args.get("code") == cd]
        ok = bool(x) and code == cd and own(p, gw, ("item", x[-1].ret, C(1))) and own(p, gr, ("item", x[-1].ret, C(2)))
        ck.ob("code", ok, m.C, w, f"the node has code {pretty(code)}, written {pretty(gw)}, read {pretty(gr)} ({cond})")


def own(p, t, x):
    return t == x or same_items(p, t, x) or (t is not None and t[0] == "call" and t[1] == "set" and t[2] == (x,))


def fresh_attrs(ck, p, N, w, cond):
    d = p.st.heap.get((N, "extension_attributes"))
    shared = [n for (n, a), v in p.st.heap.items() if a == "extension_attributes" and v == d and n != N]
    ck.ob("fresh", d is not None and fresh(p, d, "dict") and not shared, cls_of(p, N) or "node", w, f"extension_attributes is {pretty(d) if d else None}{', shared with another node' if shared else ''} ({cond})")


def package_rule(ck, m, label, kind, p, pkg, N):
    w = p.where()
    cond = f"{label}: {p.cond_text()}"
    h = lambda a: p.st.heap.get((pkg, a))  # noqa: E731
    n = lambda a: p.st.heap.get((N, a))  # noqa: E731
    for a in ("name", "loader", "distribution"):
        ck.ob("name" if a != "distribution" else "file", h(a) is not None and (h(a) == n(a) or same(p, h(a), n(a))), m.C, w, f"the package's {a} is {h(a) and pretty(h(a))}, that of its init module {pretty(n(a))}")
    f = h("filename")
    nf = n("filename")
    ok = f == NONE if nf == NONE else f == parent_of(nf)
    ck.ob("package", ok, m.C, w, f"the package's directory is {f and pretty(f)}, the file of its init module {pretty(nf)}")
    fresh_attrs(ck, p, pkg, w, cond)
    loc = p.st.heap.get((m.spec, "submodule_search_locations"), ("attr", m.spec, "submodule_search_locations"))
    ck.ob("package", paths_of(p, h("search_path"), loc), m.C, w, f"the search path is {h('search_path') and pretty(h('search_path'))} ({cond})")
    # namespace type
    s, src = m.source(p)
    nt = h("namespace_type")
    gr = n("globals_read")
    uses = p.member(C("__import__"), gr) if gr is not None else None
    if gr is not None and contents(p, gr) == []:
        uses = False
    pr = p.member(C("pkg_resources"), src) if src is not None else None
    pu = p.member(C("pkgutil"), src) if src is not None else None
    if s != "some" or uses is False:
        want = NONE
    elif pr is True and uses is True:
        want = C("pkg_resources")
    elif pr is False and pu is True and uses is True:
        want = C("pkgutil")
    elif pr is False and pu is False:
        want = NONE
    else:
        want = None
    ck.ob("package", nt == want, m.C, w, f"the namespace type is {nt and pretty(nt)} ({cond})")
    imp = [e for e in p.evs("call", "importlib.import_module")]
    if want is not None and want != NONE:
        ok = len(imp) == 1 and (loc == ("attr", imp[0].ret, "__path__") or imp[0].idx in m.failed(p) or no_items(p, loc))
        ck.ob("package", ok, m.C, w, f"a namespace package's search path is {pretty(loc)}, not that of the imported package ({cond})")
    else:
        ck.ob("package", not imp, m.C, w, f"a package that is no namespace package is imported ({cond})")
    # data files
    d = h("has_data_files")
    e = calls(p, "_contains_datafiles")
    if f == NONE:
        ck.ob("data", p.truthy(d) is False, m.C, w, f"a package without a directory has data files: {pretty(d)}")
    elif e and e[-1].idx in m.failed(p):
        ck.ob("data", p.truthy(d) is False, m.C, w, f"a package that is nowhere in the file system has data files: {pretty(d)}")
    else:
        ok = bool(e) and next(iter(e[-1].args.values())) == f and (d == e[-1].ret or (p.truthy(d) is not None and p.truthy(d) == p.truthy(e[-1].ret)))
        ck.ob("data", ok, m.C, w, f"has_data_files is {pretty(d)} ({cond})")


IGNORED = ("__pycache__", ".hg", ".svn")
MAY_IGNORE = IGNORED + (".git", ".bzr", "CVS", ".DS_Store")


def about(p, x):
    """(key, value) of the facts and (term, domain) of the values known about element x."""
    for k, v in p.st.facts.items():
        if any(x == y for z in k[1:] if isinstance(z, tuple) for y in walk(z)):
            yield k, v
    for t, d in p.st.dom.items():
        if any(x == y for y in walk(t)):
            yield ("dom", t), d


def loops_done(p, t):
    """Did every loop over a collection mentioned as each(..) in t run to its end?"""
    its = [y[1] for y in walk(t) if y and y[0] == "elem"]
    for L in its:
        ends = [e for e in p.evs("loopend") if e.recv == L]
        if ends and any(e.fn != "exhausted" for e in ends):
            return False
    return True


def inner_done(p, t, x):
    """Like loops_done, for the loops inside the one whose element is x."""
    for y in walk(t):
        if y and y[0] == "elem" and y != x and y[1] not in (x[1],):
            ends = [e for e in p.evs("loopend") if e.recv == y[1]]
            if any(e.fn != "exhausted" for e in ends):
                return False
    return True


def is_python(p, x):
    """Does the path know whether the name derived from x has a Python suffix?"""
    res = None
    for k, v in about(p, x):
        if k[0] == "dom" or k[0] == "nonempty":
            continue
        terms = [y for z in k[1:] if isinstance(z, tuple) for y in walk(z)]
        terms += [y for t in terms if t in p.st.cont for i in p.st.cont[t] for y in walk(i.val)]
        if k[0] == "affix" and k[1] != "endswith" or any(y and y[0] == "m" and y[1] == "startswith" for y in terms):
            continue
        if any(y and y[0] == "call" and y[1] == "importlib.machinery.all_suffixes" for y in terms):
            if v is True:
                return True
            if all(inner_done(p, z, x) for z in k[1:] if isinstance(z, tuple)):
                res = False
    if res is None and p.empty_iter(("call", "importlib.machinery.all_suffixes", (), (), 0)):
        return False
    return res


def is_ignored(p, x):
    """Does the path know whether a name derived from x is to be ignored?"""
    res = None
    absent = set()
    for k, v in about(p, x):
        if any(y and y[0] == "m" and y[1] in ("split", "rsplit", "partition", "rpartition") and len(y) > 3 and y[3][:1] != (C("/"),) for z in k[1:] if isinstance(z, tuple) for y in walk(z)):
            continue    # not the components of a path
        if k[0] == "dom":
            cs = {c[2] for c in v[1] if is_const(c)}
            if v[0] == "in" and cs and cs <= set(MAY_IGNORE):
                return True
            if v[0] == "notin" and set(IGNORED) <= cs and inner_done(p, k[1], x):
                res = False
        elif k[0] == "nonempty" and v is False and k[1][0] == "m" and k[1][1] == "split":
            res = False
        elif k[0] in ("truth", "nonempty", "in"):
            cs = {y[2] for z in k[1:] if isinstance(z, tuple) for y in walk(z) if y and y[0] == "c" and isinstance(y[2], str)}
            if k[0] == "in" and is_const(k[1]) and k[1][2] in MAY_IGNORE:
                if v:
                    return True
                absent.add(k[1][2])
                if set(IGNORED) <= absent:
                    res = False
                continue
            if "__pycache__" in cs and cs - {"/"} <= set(MAY_IGNORE):
                neg = any(y and y[0] == "m" and y[1] == "isdisjoint" for z in k[1:] if isinstance(z, tuple) for y in walk(z))
                r = (not v) if neg else v
                if r:
                    return True
                if set(IGNORED) <= cs:
                    res = False
    return res


def is_directory(p, x):
    for k, v in about(p, x):
        if k[0] == "truth" and k[1][0] in ("call", "m") and k[1][1].split(".")[-1] in ("is_dir", "isdir"):
            return v
        if k[0] == "truth" and k[1][0] in ("call", "m") and k[1][1].split(".")[-1] in ("is_file", "isfile"):
            return not v
        for z in k[1:]:
            if k[0] == "affix" and k[1] == "endswith" and k[3] == C("/") or isinstance(z, tuple) and z[0] == "m" and z[1] == "endswith" and z[3] == (C("/"),):
                return v
    return None


def dir_listing(t, D):
    """Is t a listing of all entries of directory D?"""
    if t is None:
        return False
    if t[0] in ("call", "m") and t[1].split(".")[-1] in ("iterdir", "listdir", "scandir", "glob"):
        args = t[2] if t[0] == "call" else (t[2],) + tuple(t[3])
        if not args or args[0] != D:
            return False
        return len(args) == 1 or args[1:] == (C("*"),)
    if t[0] == "call" and t[1] in ("list", "tuple", "sorted", "set") and t[2]:
        return dir_listing(t[2][0], D)
    return False


def datafiles_rule(ck):
    fi = ck.repo.func("_graphbuilder:_contains_datafiles")
    if fi is None:
        raise AnalysisBroken("_contains_datafiles not found")
    cons = "_contains_datafiles"
    D = ("sym", fi.params()[0])
    did = set()
    below = False
    FAULTS = {x: ("NotADirectoryError", "FileNotFoundError") for x in (".iterdir", "os.listdir", "os.scandir", "pathlib.Path.iterdir")}
    for p in ck.run(ck.engine(), fi) + ck.run(ck.engine(raise_only=set(FAULTS), raises=FAULTS), fi, label="_contains_datafiles[faults]"):
        w = p.where()
        cond = p.cond_text()
        rec = {next(iter(e.args.values())): e.ret for e in p.evs("recurse")}
        zf = [e for e in p.evs("call") if str(e.fn) == "zipfile.ZipFile"]
        missing = any(x in str(e.fn) for e in p.evs("handler") for x in ("NotADirectoryError", "FileNotFoundError", "OSError"))
        v = p.truthy(p.value) if p.kind == "ret" else None
        if p.kind == "raise":
            exc = p.value[1]
            z = [e for e in p.evs("call") if str(e.fn) == "zipfile.is_zipfile"]
            if exc in ("NotADirectoryError", "FileNotFoundError"):
                ck.ob("data", bool(z) and p.truthy(z[-1].ret) is False and seeks_zip(p), cons, w, f"a directory inside a zip file raises {exc} ({cond})")
            continue
        if not ck.ob("data", v is not None, cons, w, f"the answer is {pretty(p.value)} ({cond})"):
            continue
        if not missing:
            lists = {e.recv for e in p.evs("loopend") if dir_listing(e.recv, D)} | {k[1] for k in p.st.facts if k[0] == "nonempty" and dir_listing(k[1], D)}
            if not ck.ob("data", bool(lists), cons, w, f"the directory is not listed ({cond})"):
                continue
            facts = []
            for L in lists:
                x = ("elem", L, 0)
                if p.empty_iter(L):
                    facts.append((None, None, None, None))
                    continue
                d = is_directory(p, x)
                r = next((p.truthy(t) for a, t in rec.items() if x in set(walk(a))), None)
                facts.append((is_python(p, x), is_ignored(p, x), d, r))
            if v:
                ok = any(py is False and ig is False and (d is False or d is True and r is True) for py, ig, d, r in facts)
                ck.ob("data", ok, cons, w, f"a package has data files although none was found ({cond})")
                did.add(("dir", True, any(d is True for _, _, d, _ in facts)))
            else:
                ends = [e for L in lists for e in p.evs("loopend") if e.recv == L]
                ok = all(e.fn == "exhausted" for e in ends) and all(
                    (py, ig, d, r) == (None,) * 4 or py is True or ig is True or (d is True and r is False) for py, ig, d, r in facts)
                ck.ob("data", ok, cons, w, f"a file or directory of the package is passed over ({cond})")
                did.add(("dir", False, any(d is True for _, _, d, _ in facts)))
            continue
        # inside a zip file
        if not ck.ob("data", bool(zf), cons, w, f"answers {v} for a directory that is not in the file system, without looking into the zip file ({cond})"):
            continue
        X = zf[-1].arg("file", 0)
        below = below or X != D
        ck.ob("data", seeks_zip(p), cons, w, f"what is opened as a zip file need not be what exists of the path ({cond})")
        ck.ob("data", any(str(e.fn) == "zipfile.is_zipfile" and e.arg("filename", 0) == X and p.truthy(e.ret) for e in p.evs("call")), cons, w, "a file is opened as a zip file without checking that it is one")
        nl = [e.recv for e in p.evs("loopend") if mentions_listing(e.recv, zf[-1].ret)] + [k[1] for k in p.st.facts if k[0] == "nonempty" and mentions_listing(k[1], zf[-1].ret)]
        if not ck.ob("data", bool(nl), cons, w, f"the zip file is not listed ({cond})"):
            continue
        L = nl[0]
        x = ("elem", L, 0)
        if p.empty_iter(L):
            ck.ob("data", not v, cons, w, "an empty zip file has data files")
            continue
        pre = prefixes(p, x)
        inside = next((b for _, b in pre), None)
        for t, _ in pre:
            why = prefix_bad(t, X, D)
            ck.ob("data", why is None, cons, w, f"names in the zip file are compared with {pretty(t)}: {why}")
        py, ig, d = is_python(p, x), is_ignored(p, x), is_directory(p, x)
        if v:
            ck.ob("data", inside is True and py is False and ig is False and d is False, cons, w, f"a package in a zip file has data files although none was found ({cond})")
        else:
            ends = [e for e in p.evs("loopend") if e.recv == L]
            ok = all(e.fn == "exhausted" for e in ends) and (inside is False or py is True or ig is True or d is True)
            ck.ob("data", ok, cons, w, f"a file in the zip file is passed over ({cond})")
        did.add(("zip", v))
    ck.ob("data", below, cons, cons, "no path goes from a directory inside a zip file to that file")
    for x in (("dir", True, True), ("dir", True, False), ("dir", False, True), ("dir", False, False), ("zip", True), ("zip", False)):
        ck.ob("data", x in did, cons, cons, f"no path answers {x[1]} for {'the contents of subdirectories' if x[-1] is True and len(x) == 3 else 'a package in a zip file' if x[0] == 'zip' else 'a directory'}")


def mentions_listing(t, z):
    """Is t the list of names (or entries) of the zip file z?"""
    if t is None or t[0] not in ("call", "m", "attr"):
        return False
    if t[0] == "call" and t[1] in ("list", "tuple", "sorted", "set", "iter") and t[2]:
        return mentions_listing(t[2][0], z)
    f = t[2] if t[0] == "attr" else t[1].split(".")[-1]
    return f in ("namelist", "infolist", "filelist") and z in set(walk(t))


def prefixes(p, x):
    """(prefix, value) of the conditions name.startswith(prefix) for the name in the zip file."""
    out = []
    for k, v in about(p, x):
        if k[0] == "truth" and k[1][0] == "m" and k[1][1] == "startswith":
            out.append((k[1][3][0], v))
        elif k[0] == "affix" and k[1] == "startswith":
            out.append((k[3], v))
    return out


def seeks_zip(p):
    """Going up from a path that is not there: every step starts at something that does not exist, and goes to its parent."""
    for L in {k[1] for k, v in p.st.facts.items() if k[0] == "nonempty" and v and k[1][0] == "while"}:
        asked = [(x, v) for k, v in p.st.facts.items() if k[0] == "truth" and k[1][0] in ("m", "call") and k[1][1].split(".")[-1] in ("exists", "lexists", "is_file", "isfile")
                 for x in [k[1][2] if k[1][0] == "m" else k[1][2][0]] if x and x[0] == "loopvar" and x[2:] == L[1:]]
        if not asked or any(v is not False for _, v in asked):
            return False
    return True


def prefix_bad(t, X, D):
    """What is wrong with prefix t for the names below directory D in zip file X?"""
    parts = t[1] if t[0] == "cat" else (t,)
    last = parts[-1]
    if last[0] != "c" or not str(last[2]).endswith("/"):
        return "it does not end at a path component"
    if str(last[2]) != "/" and len(parts) > 1:
        return "something else follows the last path component"
    items = []
    for y in walk(t):
        if y and y[0] == "join" and y[1] != C("/"):
            return "the components are not joined with a slash"
        if y and y[0] == "coll":
            ms = [(i[0], i[1]) for i in y[2]]
            items += [v for k, v in ms if k == "item"]
            if len(ms) == 2 and ms[0][0] == "seg" and ms[1][0] == "item":
                return "the components are in the wrong order"
    if items and X == D:
        return "the directory that is the zip file is one of its own components"
    if X != D and X[0] == "attr" and X[2] == "parent":
        if all(x[0] == "c" for x in parts):
            return "the components below the zip file are left out"
        if items and ("attr", X[1], "name") not in items:
            return "the component below the zip file is left out"
    return None


def constructors_rule(ck):
    base = ck.repo.classes.get("BaseNode")
    if base is None:
        raise AnalysisBroken("class BaseNode not found")
    n = 0
    for cname in sorted(ck.repo.subclasses("BaseNode")):
        ci = ck.repo.classes.get(cname.rstrip("+"))
        if ci is None or "__init__" not in ci.methods:
            continue
        fi = ci.methods["__init__"]
        ps = [x for x in fi.params() if x != "self"]
        cons = f"{ci.name}.__init__"

        def init(eng, st, fr, _c=ci.name):
            st.types[SELF] = frozenset([_c])
        for p in ck.run(ck.engine(), fi, init=init, label=cons):
            if p.kind != "ret":
                ck.ob("fresh", False, cons, p.where(), f"creating the node raises {pretty(p.value)}")
                continue
            n += 1
            w = p.where()
            h = lambda a: p.st.heap.get((SELF, a))  # noqa: E731
            d = h("extension_attributes")
            ck.ob("fresh", d is not None and fresh(p, d, "dict"), cons, w, f"extension_attributes is {pretty(d) if d else None}, not a new dictionary")
            a0 = ("sym", ps[0])
            if ci.name == "Script":
                ck.ob("name", h("name") in (("call", "os.fspath", (a0,), (), 0), ("call", "str", (a0,), (), 0), ("str", a0)), cons, w, f"a script is named {h('name') and pretty(h('name'))}")
                f = h("filename")
                pf = f[2] if f and f[0] in ("m",) and f[1] in ("resolve", "absolute") else f[2][0] if f and f[0] == "call" and f[1].split(".")[-1] in ("resolve", "absolute") and f[2] else f
                ok = path_of(pf) in (a0, h("name"))
                ck.ob("file", ok, cons, w, f"the file of a script is {f and pretty(f)}")
                ck.ob("file", h("distribution") == NONE and h("loader") == NONE, cons, w, "a script has a loader or a distribution")
                gw, gr = h("globals_written"), h("globals_read")
                ck.ob("code", h("code") == ("sym", ps[1]) and fresh(p, gw, "set") and fresh(p, gr, "set") and gw != gr, cons, w, "a script's code or sets of globals are not its own")
            else:
                ck.ob("name", h("name") == a0, cons, w, f"the node is named {h('name') and pretty(h('name'))}")
                ck.ob("file", h("filename") == NONE and h("distribution") == NONE and h("loader") == NONE, cons, w, "a node that stands for no located module has a file, loader or distribution")
                for x in ps[1:]:
                    ck.ob("name", h(x) == ("sym", x), cons, w, f"{x} of the node is {h(x) and pretty(h(x))}")
    if n < 6:
        raise AnalysisBroken("node constructors not found")


def uses_rule(ck):
    """The computed attributes of modules and packages."""
    def paths(cname, attr):
        fi = next((c.methods[attr] for c in ck.repo.mro(ck.repo.classes[cname]) if attr in c.methods), None)
        if fi is None:
            raise AnalysisBroken(f"{cname}.{attr} not found")

        def init(eng, st, fr):
            st.types[SELF] = frozenset([cname])
        return fi, [p for p in ck.run(ck.engine(raise_only=set()), fi, init=init, label=f"{cname}.{attr}")]
    subs = sorted(x.rstrip("+") for x in ck.repo.subclasses("Module"))
    for cname in subs:
        for attr, name in (("uses_dunder_import", "__import__"), ("uses_dunder_file", "__file__")):
            fi, ps = paths(cname, attr)
            key = ("in", C(name), ("attr", SELF, "globals_read"))
            for p in ps:
                v = p.value
                if v == key:
                    ok = True
                else:
                    fact = p.st.facts.get(key)
                    ok = p.kind == "ret" and fact is not None and p.truthy(v) is fact
                ck.ob("uses", ok, f"{cname}.{attr}", p.where(), f"the answer does not say whether {name} is among the globals the module reads")
    for attr in ("globals_written", "globals_read"):
        fi, ps = paths("Package", attr)
        for p in ps:
            ck.ob("uses", p.kind == "ret" and p.value == ("attr", ("attr", SELF, "init_module"), attr), f"Package.{attr}", p.where(), f"{attr} of a package is not that of its init module")
        fi, ps = paths("NamespacePackage", attr)
        for p in ps:
            v = p.value
            empty = p.kind == "ret" and (v in p.st.cont and not p.st.cont[v] or v[0] == "call" and v[1] in ("frozenset", "set") and not v[2] or v == ("tup", ()))
            ck.ob("uses", empty, f"NamespacePackage.{attr}", p.where(), f"{attr} of a namespace package is not empty")
    ck.instances("uses", 8)
