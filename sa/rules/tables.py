"""C33: the built-in implied actions for the standard library, computed from their source for every platform and release."""
import ast
import os

from ..constants import Module, NotConstant, Unknown
from ..rulekit import *
from .hooks import default_true

# What CPython's own C code (and code that imports by computed name) loads, independent of platform and release.
LOADS = {
    "_asyncio": {"asyncio.events", "asyncio.base_futures", "asyncio.base_tasks", "asyncio.coroutines", "inspect", "traceback", "weakref"},
    "_curses": {"curses"},
    "_datetime": {"time", "_strptime"},
    "_elementtree": {"copy", "xml.etree.ElementPath", "pyexpat"},
    "_json": {"json.decoder"},
    "_operator": {"functools"},
    "_pickle": {"copyreg", "_compat_pickle", "codecs", "functools"},
    "_posixsubprocess": {"gc"},
    "_ssl": {"_socket"},
    "_overlapped": {"_socket"},
    "time": {"_strptime"},
    "zipimport": {"zlib"},
    "dbm": {"dbm.gnu", "dbm.ndbm", "dbm.dumb"},
}
DEMOS = {f"turtledemo.{n}" for n in ("colormixer nim rosette yinyang forest paint round_dance bytedesign fractalcurves peace sorting_animate chaos lindenmayer "
                                     "penrose tree clock minimal_hanoi planet_and_moon two_canvases").split()}
VIRTUAL = {"typing.io": "typing", "typing.re": "typing"}
ALIAS = {"xml.parsers.expat.model": "pyexpat", "xml.parsers.expat.errors": "pyexpat"}
PLATFORMS = ("linux", "darwin", "win32", "freebsd14", "cygwin", "aix")
VERSIONS = ((3, 10), (3, 11), (3, 12), (3, 13), (3, 14))


def dotted(x):
    return isinstance(x, str) and x != "" and all(y.isidentifier() for y in x.split("."))


class Table:
    """A module-level table of one module for one platform and release."""

    def __init__(self, repo, mod, name):
        self.repo, self.mod, self.name, self.asts = repo, mod, name, {}

    def tree(self, mod):
        if mod not in self.asts:
            with open(os.path.join(self.repo.root, self.repo.modules[mod].path), encoding="utf-8") as fp:
                self.asts[mod] = ast.parse(fp.read())
        return self.asts[mod]

    def at(self, mod, name, platform, version):
        r = self.repo.modules.get(mod)
        if r is None:
            return Unknown

        return Module(self.tree(mod), platform, version, self.others(mod, platform, version)).env.get(name, Unknown)

    def others(self, mod, platform, version):
        def other(base, nm):
            try:
                return self.at(f"{mod.rpartition('.')[0]}.{base}" if base else mod.rpartition(".")[0], nm, platform, version)
            except NotConstant:
                return Unknown
        return other

    def value(self, platform, version):
        try:
            v = self.at(self.mod, self.name, platform, version)
        except NotConstant as exc:
            raise AnalysisBroken(f"{self.mod}:{self.name} cannot be computed from its source: {exc}") from exc
        if not isinstance(v, dict):
            raise AnalysisBroken(f"{self.mod}:{self.name} cannot be computed from its source")
        return v

    def where(self, key=None):
        best = 1
        for x in ast.walk(self.tree(self.mod)):
            if key is not None and isinstance(x, ast.Constant) and x.value == key:
                return f"{self.repo.modules[self.mod].path}:{x.lineno}"
            if key is None and isinstance(x, ast.Name) and x.id == self.name:
                best = x.lineno
        return f"{self.repo.modules[self.mod].path}:{best}"


class Given(Table):
    """A table that is put together where it is given to the graph."""

    def __init__(self, repo, where, fi):
        path, _, line = where.rpartition(":")
        mod = [m for m, x in repo.modules.items() if x.path.endswith(path)][0]
        super().__init__(repo, mod, "implied actions")
        es = [x.args[0] if x.args else x.keywords[0].value for x in ast.walk(self.tree(mod))
              if isinstance(x, ast.Call) and x.lineno == int(line) and (x.args or x.keywords) and ast.unparse(x.func).split(".")[-1] == "add_implies"]
        if len(es) != 1:
            raise AnalysisBroken(f"the implied actions given to the graph at {where} are not found")
        self.expr, self.fn = es[0], fi.node

    def value(self, platform, version):
        try:
            m = Module(ast.Module([s for s in self.tree(self.mod).body if isinstance(s, (ast.Import, ast.ImportFrom))], []), platform, version, self.others(self.mod, platform, version))
            for x in ast.walk(self.fn):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    m.env[x.targets[0].id] = m.value(x.value, m.env)
            return m.known_value(self.expr, m.env)
        except NotConstant as exc:
            raise AnalysisBroken(f"the implied actions given to the graph cannot be computed: {exc}") from exc


def kind(v):
    t = type(v).__name__
    return "none" if v is None else t if t in ("Alias", "Virtual") else "list" if isinstance(v, (tuple, list, set, frozenset)) else "other"


def C33(ck):
    R = ck.rule
    R("applied", "a graph starts with the built-in implied actions unless it is told not to use them")
    R("own", "no graph changes the tables it shares with other graphs")
    R("form", "every implied action is one of the documented kinds, and names modules")
    R("ends", "names that stand for other names end at a module")
    R("loads", "what the interpreter's own extension modules load is implied by them")
    R("stands", "names that are no modules of their own lead to the module that provides them")
    n = Names(ck.repo)
    init, cons = graph_method(ck.repo, "__init__"), "ModuleGraph.__init__"
    flag = ("sym", "use_stdlib_implies")
    default_true(ck, "applied", init, "use_stdlib_implies")
    tables = set()
    for p in ck.run(ck.engine(opaque=n.opaque | {"ModuleGraph.add_implies"}), init):
        given = [e for e in calls(p, "ModuleGraph.add_implies")]
        on = p.truthy(flag)
        got = [e.args.get("implies") for e in given]
        tables |= {t[1].partition(":")[::2] if t[0] == "glob" else ("", given[i].where) for i, t in enumerate(got) if t is not None}
        ck.ob("applied", bool(given) is (on is True), cons, given[0].where if given else p.where(), f"the implied actions are {'' if given else 'not '}used ({p.cond_text()})")
    ck.need(tables, "no table of implied actions is given to the graph")
    for m in ("__init__", "add_implies", "add_excludes"):
        fi = graph_method(ck.repo, m)
        mine = {("sym", x) for x in fi.params() if x != "self"}
        for p in ck.run(ck.engine(opaque=n.opaque), fi, label=f"{m}[tables]"):
            bad = [e for e in p.evs(("mut", "dset", "ddel", "pop")) if e.recv is not None and (e.recv[0] == "glob" or e.recv in mine)]
            ck.ob("own", not bad, f"ModuleGraph.{m}", bad[0].where if bad else p.where(), f"{pretty(bad[0].recv) if bad else ''} is changed by the graph")
    for mod, nm in sorted(tables):
        T = Table(ck.repo, mod, nm) if mod else Given(ck.repo, nm, init)
        for platform in PLATFORMS:
            for version in VERSIONS:
                check_table(ck, T, platform, version)
    ck.assumptions.append("what extension modules of CPython 3.10 and later load is taken from a table in the check (from CPython's sources); entries of the table beyond it are only checked for their form")


def check_table(ck, T, platform, version):
    v = T.value(platform, version)
    cons = f"{T.mod.split('.')[-1]}:{T.name}"
    on = f"on {platform} with Python {version[0]}.{version[1]}"
    for k, x in v.items():
        w = T.where(k)
        ck.ob("form", dotted(k), cons, w, f"{k!r} is no module name")
        ok = {"none": True, "list": kind(x) == "list" and all(type(y) is str and dotted(y) for y in x)}.get(kind(x), kind(x) != "other" and dotted(x))
        ck.ob("form", ok, cons, w, f"{k} implies {x!r}, which is no list of module names, alias or virtual module {on}")
        seen, y = {k}, x
        while kind(y) in ("Alias", "Virtual") and str(y) not in seen:
            seen.add(str(y))
            y = v.get(str(y), ())
        ck.ob("ends", kind(y) not in ("Alias", "Virtual"), cons, w, f"{k} stands for itself {on}")
        if kind(x) in ("Alias", "Virtual"):
            ck.ob("ends", y is not None, cons, w, f"{k} leads to an excluded module {on}")
            if kind(x) == "Virtual":
                ck.ob("ends", not str(x).startswith(k + "."), cons, w, f"{k} is provided by its own submodule {on}")

    def needs(k, names):
        x = v.get(k)
        names = {y for y in names if y not in v or v[y] is not None}
        ck.ob("loads", kind(x) == "list" and names <= set(x), cons, T.where(k) if k in v else T.where(),
              f"{k} does not imply {', '.join(sorted(names - set(x if kind(x) == 'list' else ())))} {on}")
    for k, names in LOADS.items():
        needs(k, names)
    needs("turtledemo", DEMOS)
    if platform == "win32":
        needs("signal", {"_socket"})
        x = v.get("sysconfig", ())
        ck.ob("loads", kind(x) == "list" and not any(y.startswith("_sysconfigdata") for y in x), cons, T.where("sysconfig"), "sysconfig implies a configuration module that does not exist on Windows")
    else:
        needs("sysconfig", {f"_sysconfigdata_FLAGS_{platform}_MULTIARCH"})
    real = "ntpath" if platform == "win32" else "posixpath"
    for k, target, want in [("os.path", real, "Alias")] + [(k, t, "Virtual") for k, t in VIRTUAL.items()] + [(k, t, "Alias") for k, t in ALIAS.items()]:
        x = v.get(k)
        ck.ob("stands", kind(x) == want and str(x) == target, cons, T.where(k) if k in v else T.where(), f"{k} implies {x!r}, not {want}({target!r}) {on}")
