"""C32: names that stand for other modules (six.moves, vendored packages, the replaced distutils)."""
import ast

from ..domain import Values
from ..rulekit import *
from .build import LOOKUP_ERRORS, NameModel
from .nodes import consistent, no_items

# What the names of six.moves stand for on Python 3 (six's documentation).
MODULES = {
    "builtins": "builtins", "configparser": "configparser", "collections_abc": "collections.abc", "copyreg": "copyreg", "dbm_gnu": "dbm.gnu",
    "dbm_ndbm": "dbm.ndbm", "_dummy_thread": "_thread", "http_cookiejar": "http.cookiejar", "http_cookies": "http.cookies",
    "html_entities": "html.entities", "html_parser": "html.parser", "http_client": "http.client", "email_mime_base": "email.mime.base",
    "email_mime_image": "email.mime.image", "email_mime_multipart": "email.mime.multipart", "email_mime_nonmultipart": "email.mime.nonmultipart",
    "email_mime_text": "email.mime.text", "BaseHTTPServer": "http.server", "CGIHTTPServer": "http.server", "SimpleHTTPServer": "http.server",
    "cPickle": "pickle", "queue": "queue", "reprlib": "reprlib", "socketserver": "socketserver", "_thread": "_thread", "tkinter": "tkinter",
    "tkinter_dialog": "tkinter.dialog", "tkinter_filedialog": "tkinter.filedialog", "tkinter_scrolledtext": "tkinter.scrolledtext",
    "tkinter_simpledialog": "tkinter.simpledialog", "tkinter_tix": "tkinter.tix", "tkinter_ttk": "tkinter.ttk", "tkinter_constants": "tkinter.constants",
    "tkinter_dnd": "tkinter.dnd", "tkinter_colorchooser": "tkinter.colorchooser", "tkinter_commondialog": "tkinter.commondialog",
    "tkinter_tkfiledialog": "tkinter.filedialog", "tkinter_font": "tkinter.font", "tkinter_messagebox": "tkinter.messagebox",
    "tkinter_tksimpledialog": "tkinter.simpledialog", "urllib_parse": "urllib.parse", "urllib_error": "urllib.error", "urllib_request": "urllib.request",
    "urllib_response": "urllib.response", "urllib_robotparser": "urllib.robotparser", "urllib": "urllib", "urllib.parse": "urllib.parse",
    "urllib.error": "urllib.error", "urllib.request": "urllib.request", "urllib.response": "urllib.response", "urllib.robotparser": "urllib.robotparser",
    "xmlrpc_client": "xmlrpc.client", "xmlrpc_server": "xmlrpc.server", "winreg": "winreg",
}
ATTRIBUTES = {
    "cStringIO": "io", "filterfalse": "itertools", "getcwd": "os", "getcwdb": "os", "getoutput": "subprocess", "intern": "sys", "reduce": "functools",
    "reload_module": "importlib", "shlex_quote": "shlex", "StringIO": "io", "UserDict": "collections", "UserList": "collections",
    "UserString": "collections", "zip_longest": "itertools",
}
BUILTINS = {"filter", "input", "map", "range", "xrange", "zip"}
UNKNOWN = ("no_such_name", "parse", "urllib.no_such_name")
FIND = "importlib.util.find_spec"
KNOWN_CALLS = {"dict": dict, "set": set, "frozenset": frozenset, "tuple": tuple, "list": list, "zip": zip, "dict.fromkeys": dict.fromkeys, "sorted": sorted, "str": str}


def loader(cls, module, **attrs):
    t = type(cls, (), attrs)
    t.__module__ = module
    return t()


def constant(repo, mod, name):
    """Value of a module-level constant, computed from its source."""
    r = repo.lookup(repo.modules[mod], name)
    if r is None or r[0] != "const":
        raise AnalysisBroken(f"{mod}:{name} is no constant")

    def bind(t, v, env):
        if isinstance(t, ast.Name):
            return {**env, t.id: v}
        if isinstance(t, ast.Tuple):
            for x, y in zip(t.elts, v):
                env = bind(x, y, env)
            return env
        raise ValueError(ast.unparse(t))

    def turns(gens, m, env):
        if not gens:
            yield env
            return
        for v in ev(gens[0].iter, m, env):
            inner = bind(gens[0].target, v, env)
            if all(ev(c, m, inner) for c in gens[0].ifs):
                yield from turns(gens[1:], m, inner)

    def ev(e, m, env):
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            q = repo.lookup(m, e.id)
            if q is not None and q[0] == "const":
                return ev(q[1], q[2], {})
        elif isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    out.update(ev(v, m, env))
                else:
                    out[ev(k, m, env)] = ev(v, m, env)
            return out
        elif isinstance(e, (ast.Set, ast.List, ast.Tuple)):
            xs = []
            for x in e.elts:
                xs += ev(x.value, m, env) if isinstance(x, ast.Starred) else [ev(x, m, env)]
            return {ast.Set: set, ast.List: list, ast.Tuple: tuple}[type(e)](xs)
        elif isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.Add)):
            a, b = ev(e.left, m, env), ev(e.right, m, env)
            return a | b if isinstance(e.op, ast.BitOr) else a + b
        elif isinstance(e, ast.DictComp):
            return {ev(e.key, m, x): ev(e.value, m, x) for x in turns(e.generators, m, env)}
        elif isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return [ev(e.elt, m, x) for x in turns(e.generators, m, env)]
        elif isinstance(e, ast.JoinedStr):
            return "".join(str(ev(x.value if isinstance(x, ast.FormattedValue) else x, m, env)) for x in e.values)
        elif isinstance(e, ast.Call):
            fn = ast.unparse(e.func)
            args, kw = [ev(x, m, env) for x in e.args], {k.arg: ev(k.value, m, env) for k in e.keywords}
            if fn in KNOWN_CALLS:
                return KNOWN_CALLS[fn](*args, **kw)
            if fn.split(".")[-1] == "MappingProxyType":
                return args[0]
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("split", "replace", "items", "keys", "values", "join", "removeprefix"):
                return getattr(ev(e.func.value, m, env), e.func.attr)(*args)
        return ast.literal_eval(e)

    try:
        return ev(r[1], r[2], {})
    except (ValueError, TypeError) as exc:
        raise AnalysisBroken(f"{mod}:{name} cannot be computed from its source") from exc


class Moves:
    def __init__(self, ck):
        self.ck, self.C = ck, "node_for_spec"
        fi = ck.repo.func("_graphbuilder:node_for_spec")
        ck.need(fi, "node_for_spec not found")
        self.spec, self.path = (("sym", x) for x in fi.params()[:2])
        self.L, self.name = ("attr", self.spec, "loader"), ("attr", self.spec, "name")
        finds = {FIND: LOOKUP_ERRORS}
        self.paths = ck.run(ck.engine(opaque={"_contains_datafiles", "distribution_for_file", "extract_ast_info", "extract_bytecode_info", "node_for_spec"},
                                      raise_only=set(finds), raises=finds), fi)
        self.globs = {}

    def itself(self, rule):
        """An assertion on the specification found only fails after it was looked up with its entry in sys.modules gone."""
        fi = self.ck.repo.func("_graphbuilder:node_for_spec")
        finds = {FIND: LOOKUP_ERRORS}
        eng = self.ck.engine(opaque={"_contains_datafiles", "distribution_for_file", "extract_ast_info", "extract_bytecode_info", "node_for_spec"},
                             raise_only=set(finds), raises=finds, assert_raises=True)
        for p in self.ck.run(eng, fi, label="node_for_spec[assertions]"):
            ls = p.evs("call", FIND)
            if p.kind == "ret":
                self.ck.ob(rule, True, self.C, p.where(), "")
            if p.kind != "raise" or p.value[1] != "AssertionError" or not ls:
                continue
            l = ls[-1]
            if p.eq(("attr", l.ret, "name"), self.name) is not True or l.args != ls[0].args:
                continue
            gone = any(e.recv == ("ext", "sys.modules") and e.idx < l.idx and e.args and e.args[0] == l.arg("name", 0) for e in p.evs(("ddel", "pop")))
            self.ck.ob(rule, gone, self.C, l.where, f"a module that stands in for another is taken for that one ({p.cond_text()})")

    def env(self, p, env):
        """The representatives, with the values of the constants the path looks at."""
        out = dict(env)
        terms = [p.value] + list(p.st.facts) + list(p.st.dom) + [x for e in p.events for x in (e.args.values() if isinstance(e.args, dict) else e.args)]
        terms += [i.val for xs in p.st.cont.values() for i in xs]
        for t in terms:
            for x in walk(t) if isinstance(t, tuple) else ():
                if len(x) == 2 and x[0] == "glob" and x not in self.globs:
                    mod, _, nm = x[1].partition(":")
                    try:
                        self.globs[x] = constant(self.ck.repo, mod, nm)
                    except AnalysisBroken:
                        self.globs[x] = None
        out.update((t, v) for t, v in self.globs.items() if v is not None)
        return out

    def feasible(self, sample, name, **more):
        env = {self.name: name}
        for a, b in more.items():
            env[("attr", self.L, a)] = b
        for p in self.paths:
            if not consistent(p, self.L, sample):
                continue
            V = Values(p, self.env(p, env))
            if V.holds() is not False:
                yield p, V

    def lookups(self, p, V):
        """[(name looked up, event)] of the lookups that find the module."""
        return [(V.get(e.arg("name", 0)), e) for e in p.evs("call", FIND)]

    def answer(self, p, V, e):
        """'found', 'none' or the exceptions of a lookup on this path."""
        for h in p.evs("handler"):
            x = h.args[0] if h.args else None
            if x and x[0] == "exc" and isinstance(x[2], tuple) and x[2] == (FIND, e.idx):
                return x[1]
        n = p.is_none(e.ret)
        return "none" if n is True else "found" if n is False else "unknown"

    def odd(self, p):
        """Is something other than a lookup handled as failing (the import caches, an entry that a lookup just found in
        the table of modules)?"""
        for h in p.evs("handler"):
            x = h.args[0] if h.args else None
            if x and x[0] == "exc" and isinstance(x[2], tuple) and (x[2][0] == "importlib.invalidate_caches" or x[1] == "KeyError" and any(
                    k[0] == "in" and k[2] == ("ext", "sys.modules") and not b for k, b in p.st.facts.items())):
                return True
        return False

    def forwarded(self, p, V):
        """The lookup whose spec gives the result, or None."""
        v = p.value
        for e in p.evs("call"):
            if e.fn == "node_for_spec" and e.ret == v:
                a = list(e.args.values()) if isinstance(e.args, dict) else list(e.args)
                for l in p.evs("call", FIND):
                    if a and a[0] == l.ret:
                        return l, a
                return None, a
        return None, None

    def missing(self, p, V):
        """Name of the missing module that the path returns, or None."""
        v = p.value
        if v is None or v[0] != "tup" or len(v[1]) != 2 or p.isinst(v[1][0], "MissingModule") is not True:
            return None
        return V.get(p.st.heap.get((v[1][0], "name")) or p.st.heap.get((v[1][0], "identifier")), "?")

    def leads_to(self, rule, p, V, what, targets, fallback=("ModuleNotFoundError",)):
        """The result is the module of the first of `targets` that is found."""
        ck, w = self.ck, p.where()
        ls = self.lookups(p, V)
        if p.kind == "raise" or self.odd(p):
            return
        if not ck.ob(rule, all(n in targets for n, _ in ls), self.C, w, f"{what} is looked up as {sorted({str(n) for n, _ in ls if n not in targets})} instead of {' or '.join(targets)}"):
            return
        ans = {}
        for n, e in ls:
            ans[n] = self.answer(p, V, e)   # the last lookup of a name counts
        l, a = self.forwarded(p, V)
        if a is not None:
            if not ck.ob(rule, l is not None and len(a) > 1 and a[1] == self.path, self.C, w, f"{what} gives the node of another specification"):
                return
            n = V.get(l.arg("name", 0))
            before = targets[:targets.index(n)]
            ck.ob(rule, self.answer(p, V, l) == "found", self.C, w, f"{what} gives a node even if {n} is not found ({p.cond_text()})")
            ck.ob(rule, p.eq(("attr", l.ret, "name"), self.name) is False, self.C, w, f"{what} may lead back to itself")
            for b in before:
                ck.ob(rule, b in ans and (ans[b] == "none" or "Error" in str(ans[b])), self.C, w, f"{what} leads to {n} although {b} comes first ({p.cond_text()})")
            return
        m = self.missing(p, V)
        if not ck.ob(rule, m is not None, self.C, w, f"{what} gives {pretty(p.value)} ({p.cond_text()})"):
            return
        ck.ob(rule, m in targets, self.C, w, f"{what} gives a missing module named {m}")
        for t in targets:
            if t in ans:
                ck.ob(rule, ans[t] not in ("found", "unknown"), self.C, w, f"{what} gives a missing module although {t} is found ({p.cond_text()})")
                if ans[t] not in ("none",) + tuple(fallback):
                    break   # the package itself fails
            else:
                ck.ob(rule, False, self.C, w, f"{what} gives a missing module without looking for {t} ({p.cond_text()})")


def C32(ck):
    R = ck.rule
    R("package", "the six.moves package of any project is a package of its own, without files or children in the file system, that binds six's built-in names")
    R("module", "every module name of six.moves leads to the module it stands for, an unknown name to a missing module of that name")
    R("attribute", "every attribute of six.moves leads to the module that defines it")
    R("marker", "a six.moves package is recognised as one when names are imported from it")
    R("vendored", "a name of a vendored package leads to the vendored module, or to the top-level one when there is none")
    R("distutils", "distutils replaced by setuptools leads to setuptools' copy")
    R("itself", "a module that is found under the name it stands in for is located again without the entry that hides it")
    m = Moves(ck)
    m.itself("itself")
    six = loader("_SixMetaPathImporter", "six")
    marks = set()
    for nm in ("six.moves", "requests.packages.six.moves"):
        got = 0
        for p, V in m.feasible(six, nm):
            got += 1
            package(ck, m, p, V, nm, marks)
        ck.ob("package", got > 0, m.C, m.C, f"{nm} is not handled")
    for prefix in ("six.moves.", "pkg.six.moves."):
        for nm, target in MODULES.items():
            some = set()
            for p, V in m.feasible(six, prefix + nm):
                m.leads_to("module", p, V, prefix + nm, [target])
                some.add(m.forwarded(p, V)[0] is not None)
            ck.ob("module", True in some, m.C, m.C, f"{prefix}{nm} never leads to {target}")
        for nm in UNKNOWN:
            for p, V in m.feasible(six, prefix + nm):
                ck.ob("module", p.kind == "ret" and m.missing(p, V) == prefix + nm, m.C, p.where(), f"the unknown name {prefix}{nm} gives {pretty(p.value)}")
    names_rule(ck, marks)
    for mod in ("setuptools.extern", "pkg_resources.extern"):
        for rel in ("packaging", "packaging.version"):
            vendor = mod.replace("extern", "_vendor")
            v = loader("VendorImporter", mod, root_name=mod, vendor_pkg=vendor)
            seen = set()
            for p, V in m.feasible(v, f"{mod}.{rel}", root_name=mod, vendor_pkg=vendor):
                m.leads_to("vendored", p, V, f"{mod}.{rel}", [f"{vendor}.{rel}", rel])
                l = m.forwarded(p, V)[0]
                if l is not None:
                    seen.add(V.get(l.arg("name", 0)))
            ck.ob("vendored", len(seen) == 2, m.C, m.C, f"{mod}.{rel} leads to {sorted(map(str, seen))} only")
    d = loader("DistutilsLoader", "_distutils_hack")
    seen = 0
    for p, V in m.feasible(d, "distutils"):
        if p.kind == "raise":
            continue
        l, a = m.forwarded(p, V)
        if a is not None:
            seen += 1
            ck.ob("distutils", l is not None and V.get(l.arg("name", 0)) == "setuptools._distutils" and a[1:] == [m.path] and m.answer(p, V, l) == "found",
                  m.C, p.where(), f"distutils gives {pretty(p.value)}")
        else:
            ls = m.lookups(p, V)
            ck.ob("distutils", m.missing(p, V) is not None and [n for n, _ in ls] == ["setuptools._distutils"] and all(m.answer(p, V, e) != "found" for _, e in ls),
                  m.C, p.where(), f"distutils gives {pretty(p.value)} ({p.cond_text()})")
    ck.ob("distutils", seen > 0, m.C, m.C, "distutils never leads to setuptools' copy")
    ck.assumptions.append("six names and their modules as documented by six 1.16; other loaders than those of six, setuptools and pkg_resources do not stand for other modules")


def package(ck, m, p, V, nm, marks):
    w = p.where()
    v = p.value
    if not ck.ob("package", p.kind == "ret" and v[0] == "tup" and len(v[1]) == 2 and p.isinst(v[1][0], "Package") is True, m.C, w, f"{nm} gives {pretty(v)} ({p.cond_text()})"):
        return
    N, imports = v[1]
    h = p.st.heap
    I = h.get((N, "init_module"))
    ck.ob("package", V.get(h.get((N, "name"))) == nm, m.C, w, f"the package of {nm} has another name")
    ck.ob("package", no_items(p, imports), m.C, w, f"{nm} imports something")
    ck.ob("package", no_items(p, h.get((N, "search_path"))), m.C, w, f"{nm} has locations in the file system")
    ck.ob("package", V.get(h.get((N, "has_data_files")), "?") is False, m.C, w, f"{nm} has data files")
    if not ck.ob("package", I is not None and p.isinst(I, "Module") is True, m.C, w, f"{nm} has no module of its own"):
        return
    g = V.get(h.get((I, "globals_written")))
    ck.ob("package", g is not None and set(g) == BUILTINS, m.C, w, f"{nm} binds {g and sorted(g)}, not six's built-in names")
    marks.add(V.get(h.get((I, "name"))) or V.get(h.get((I, "identifier"))))
    have = [(o, a, h.get((o, a))) for o, a in ((I, "globals_written"), (I, "globals_read"), (I, "extension_attributes"), (N, "extension_attributes"))]
    for o, a, x in have:
        made = x is not None and (x[0] == "obj" or x[0] == "call" and x[1] in ("set", "dict", ".copy", ".union", "copy.copy"))
        ck.ob("package", made and sum(y == x for _, _, y in have) == 1, m.C, w, f"{nm} shares its {a} ({x and pretty(x)}) with others")
    for o in (N, I):
        ck.ob("package", V.get(h.get((o, "filename")), "?") is None, m.C, w, f"{nm} has a file")


def names_rule(ck, marks):
    """`from six.moves import name`, decided on the paths of C07 whose package is marked."""
    m = NameModel(ck)
    tables = {}
    for p in m.paths:
        for k, d in p.st.dom.items():
            if k[0] == "attr" and k[2] in ("name", "identifier") and k[1][0] == "attr" and k[1][2] == "init_module" and d[0] == "in":
                tables.setdefault("marks", set()).update(c[2] for c in d[1] if is_const(c))
        for e in p.evs("call"):
            if e.fn == m.n.folm and isinstance(e.args, dict):
                t = e.args.get("module_name")
                if t is not None and t[0] == "item" and t[1][0] == "glob":
                    tables[t[1]] = p.where()
    ck.ob("marker", bool(marks) and None not in marks and marks <= tables.get("marks", set()), "ModuleGraph._process_namelist", "ModuleGraph._process_namelist",
          f"six packages are marked {sorted(map(str, marks))} and recognised by {sorted(map(str, tables.get('marks', ())))}")
    ts = [t for t in tables if t != "marks"]
    ck.ob("attribute", bool(ts), "ModuleGraph._process_namelist", "ModuleGraph._process_namelist", "no table of moved names is used")
    for t in ts:
        mod, _, nm = t[1].partition(":")
        v = constant(ck.repo, mod, nm)
        for a, target in ATTRIBUTES.items():
            ck.ob("attribute", v.get(a) == target, f"{mod}:{nm}", tables[t], f"six.moves.{a} leads to {v.get(a)}, not to {target}")
        for a in BUILTINS:
            ck.ob("attribute", a not in v or v[a] == "builtins", f"{mod}:{nm}", tables[t], f"the built-in six.moves.{a} leads to {v.get(a)}")
