"""C28, C29: the built-in hooks."""
import ast
import pathlib

from ..domain import Rep, Unknown, Values
from ..repo import AnalysisBroken
from ..rulekit import *  # noqa: F401,F403
from ..rulekit import C, FALSE, NONE, TRUE, pretty, walk, q, graph_init, norm_work, stack_of
from .output import elem

GRAPH = ("sym", "graph")
FIND = "importlib.util.find_spec"
EFFECTS = ("graph", "setattr", "dset", "ddel", "mut", "setslice", "setpart", "pop", "recurse")


def kinds(ck, name):
    """The classes an instance of `name` belongs to."""
    ci = ck.repo.classes.get(name)
    ck.need(ci is not None, f"class {name} not found")
    return tuple(c.name for c in ck.repo.mro(ci)) + ("BaseNode",)


def rep(ck, cls, name, **kw):
    d = dict(name=name, identifier=name, filename=None, distribution=None, loader=None, globals_written=set(), globals_read=set(), init_module=None, code=None)
    d.update(kw)
    return Rep(kinds(ck, cls), **d)


def raised_by(x):
    """(function, event index) of the call an exception comes from."""
    if x is not None and x[0] == "exc" and len(x) > 2 and isinstance(x[2], tuple) and len(x[2]) == 2 and isinstance(x[2][1], int):
        return x[2]
    return None, None


def on_graph(p):
    """Events that change the graph or what is in it."""
    out = []
    for e in p.events:
        if e.kind == "graph" or e.kind == "call" and e.fn.startswith("ModuleGraph.") and e.fn not in ("ModuleGraph._find_module",):
            out.append(e)
        elif e.kind in EFFECTS and e.recv is not None and (e.recv == GRAPH or e.recv[0] == "attr" and GRAPH in walk(e.recv)):
            out.append(e)
    return out


# -- C28 ---------------------------------------------------------------------------
class Swig:
    def __init__(self, ck):
        self.ck = ck
        fi = ck.repo.func("_swig_support:swig_missing_hook")
        ck.need(fi, "swig_missing_hook not found")
        ps = fi.params()
        ck.need(len(ps) == 3, "parameters of swig_missing_hook")
        self.fi, self.graph, self.imp, self.name = fi, *[("sym", x) for x in ps]
        eng = ck.engine(opaque={"node_for_spec"}, raise_only={FIND}, assert_raises=True, types={self.name: ("str",)},
                        raises={FIND: ("ImportError", "ModuleNotFoundError", "ValueError", "AttributeError", "SyntaxError", "Exception", "SystemExit")})
        self.paths = ck.run(eng, fi, init=graph_init(self.graph))
        self.C = fi.name

    def importers(self):
        ck = self.ck
        helper = {"swig_import_helper", "other"}
        yield None
        for g in (helper, {"swig_import_helper_2", "other"}, set()):
            for cls, names in (("SourceModule", ("mod", "pkg.mod", "a.pkg.mod", "a.mod.pkg")), ("Package", ("pkg", "a.pkg")), ("BytecodeModule", ("pkg.mod",)),
                               ("Script", ("mod", "/bin/mod")), ("MissingModule", ("pkg.mod",)), ("NamespacePackage", ("pkg",))):
                for n in names:
                    yield rep(ck, cls, n, globals_written=g)

    def names(self, imp):
        if imp is None:
            return ["_mod"]
        full = imp.attrs["name"]
        last = full.rpartition(".")[2]
        return ["_" + last, last, "_" + full, "__" + last, "_" + last + "x", "_", "_" + full.partition(".")[0], full + "._" + last]

    def wanted(self, imp, name):
        return imp is not None and bool({"Module", "Package"} & set(imp.classes)) and name == "_" + imp.attrs["name"].rpartition(".")[2] and "swig_import_helper" in imp.attrs["globals_written"]

    def package(self, imp):
        return imp.attrs["name"] if "Package" in imp.classes else imp.attrs["name"].rpartition(".")[0]

    def lookups(self, p, V):
        """[(event, full name)] of the lookups on a path."""
        out = []
        for e in p.evs("call", FIND):
            n = V.ev(e.args[0]) if e.args else V.ev(dict(e.kw)["name"])
            pkg = e.args[1] if len(e.args) > 1 else dict(e.kw).get("package", NONE)
            if n.startswith("."):
                n = V.ev(pkg) + n
            out.append((e, n))
        return out


def C28(ck):
    R = ck.rule
    R("only", "the hook answers only for a module or package that defines the helper, asked for the underscored last part of its name")
    R("own", "the extension is looked for in the importer's own package, and nowhere else")
    R("answer", "an extension module that is found is the answer, under exactly the missing name, and is added to the graph once")
    R("nothing", "without an answer the graph is as it was")
    R("robust", "no outcome of a lookup ends the hook with an exception")
    R("registered", "a new graph uses the hook unless the built-in hooks are declined")
    registered(ck, "registered", "_swig_support:swig_missing_hook", "FirstNotNone")
    m = Swig(ck)
    cons = m.C
    answered = set()
    for imp in m.importers():
        for name in m.names(imp):
            for p in m.paths:
                env = {m.imp: imp, m.name: name}
                V = Values(p, env)
                if V.holds(set(env)) is False:
                    continue
                w = p.where()
                eff = on_graph(p)
                who = f"a {imp.classes[0]} {imp.attrs['name']}" if imp is not None else "nobody"
                if not m.wanted(imp, name):
                    if p.kind == "raise":
                        ck.ob("robust", False, cons, w, f"raises {pretty(p.value)} for {name} imported by {who}")
                        continue
                    ck.ob("only", p.value == NONE, cons, w, f"there is an answer for {name} imported by {who}" +
                          ("" if imp is None or "swig_import_helper" in imp.attrs["globals_written"] else " without the helper"))
                    ck.ob("nothing", not eff, cons, eff[0].where if eff else w, f"the graph changes for {name} imported by {who}")
                    continue
                answer(ck, m, p, V, imp, name, who, answered)
    ck.ob("answer", len(answered) >= 4, cons, cons, "extensions are not found for every kind of importer")
    for r, n in (("only", 20), ("own", 5), ("answer", 4), ("nothing", 20)):
        ck.instances(r, n)
    ck.assumptions.append("the parent of a package that is in the graph can be located; a lookup next to a stand-in package does not raise")


def answer(ck, m, p, V, imp, name, who, answered):
    cons, w = m.C, p.where()
    pkg = m.package(imp)
    eff = on_graph(p)
    try:
        ls = m.lookups(p, V)
    except Unknown as exc:
        ck.ob("own", False, cons, w, f"what is looked for cannot be followed ({exc})")
        return
    target = f"{pkg}.{name}" if pkg else None
    failed = {raised_by(e.args[0])[1] for e in p.evs("handler")} - {None}
    hits = [(e, n) for e, n in ls if n == target]
    for e, n in ls:
        ck.ob("own", n in (target, pkg) and n is not None and pkg != "", cons, e.where, f"{n} is looked for when {name} is imported by {who}")
    if p.kind == "raise":
        if p.value[:2] == ("exc", "AssertionError"):
            # only what is known about a lookup makes the assertion fail
            bad = [e for e, n in ls if p.is_none(e.ret) is True or p.is_none(("attr", e.ret, "submodule_search_locations")) is True]
            ck.ob("robust", not bad, cons, w, f"an assertion fails when the lookup of {ls[-1][1] if ls else None} finds nothing")
            return
        fn, i = raised_by(p.value)
        second = fn == FIND and any(e.idx == i for e, n in hits[1:])
        odd = fn == FIND and any(e.idx == i for e, n in ls if n == pkg) and p.value[1] not in ("ImportError", "ModuleNotFoundError")
        ck.ob("robust", second or odd, cons, w, f"raises {pretty(p.value)} for {name} imported by {who}")
        return
    if not pkg:
        ck.ob("nothing", p.value == NONE and not eff, cons, w, f"there is an answer for {name} imported by the toplevel module {imp.attrs['name']}")
        return
    ck.ob("own", bool(hits), cons, w, f"{target} is not looked for when {name} is imported by {who} ({p.cond_text()})")
    if not hits:
        return
    last, _ = hits[-1]
    if last.idx in failed:
        # trying again needs a package to look in
        parents = [e for e, n in ls if n == pkg]
        given_up = any(k[0] == "in" and k[2] == ("ext", "sys.modules") and v is True and V.get(k[1]) == pkg for k, v in p.st.facts.items())
        for e in parents:
            given_up |= e.idx in failed or p.is_none(e.ret) is True or p.truthy(e.ret) is False
            for a in ("submodule_search_locations", "origin"):
                given_up |= p.is_none(("attr", e.ret, a)) is True or p.truthy(("attr", e.ret, a)) is False
        ck.ob("own", given_up, cons, last.where, f"the package is not looked into again after importing it failed ({p.cond_text()})")
        ck.ob("nothing", p.value == NONE and not eff, cons, w, f"there is an answer though {target} was not found")
        return
    if len(hits) > 1:
        stand_in(ck, m, p, V, hits, ls, pkg, last)
    if p.is_none(last.ret) is True or p.truthy(last.ret) is False:
        ck.ob("nothing", p.value == NONE and not eff, cons, w, f"there is an answer though there is no {target}")
        return
    made = [e for e in p.evs("call", "node_for_spec") if last.ret in e.args.values()]
    found = ("item", made[0].ret, C(0)) if made else None
    ext = p.isinst(found, "ExtensionModule") if made else None
    if ext is None and made:
        ext = p.eq(("type", found), ("cls", "ExtensionModule"))
    if ext is False:
        ck.ob("nothing", p.value == NONE and not eff, cons, w, f"there is an answer though {target} is no extension module")
        return
    ck.ob("answer", p.value == found and ext is True, cons, w, f"{target} is there, yet the answer is {pretty(p.value)} ({p.cond_text()})")
    if p.value != found or found is None:
        ck.ob("nothing", p.value != NONE or not eff, cons, w, "the graph changes though there is no answer")
        return
    answered.add((imp.classes[0], pkg))
    adds = [e for e in eff if e.fn == "add_node" and e.arg("node", 0) == found]
    ck.ob("answer", len(adds) == 1 and len(eff) == 1 and not adds[0].loops, cons, w, f"the answer is added to the graph {len(adds)} times, with {len(eff)} changes of the graph")
    new = p.st.heap.get((found, "name"))
    ok = new is not None and V.get(new) == name
    ck.ob("answer", ok, cons, w, f"the answer is named {pretty(new) if new is not None else 'as it was found'}")
    for e in p.evs("setattr", "name"):
        if e.recv == found and adds:
            ck.ob("answer", e.idx < adds[0].idx, cons, e.where, "the answer gets its name after it was added to the graph")


def stand_in(ck, m, p, V, hits, ls, pkg, last):
    """Before trying again a stand-in for the package, with its search path, is in the module table."""
    sets = [e for e in p.events if e.kind == "dset" and e.recv == ("ext", "sys.modules") and hits[0][0].idx < e.idx < last.idx and V.get(e.args[0]) == pkg]
    ok = False
    specs = [e.ret for e, n in ls if n == pkg]
    for e in sets:
        path = p.st.heap.get((e.args[1], "__path__"))
        if path is None:
            continue
        inside = list(p.st.cont[path]) if path in p.st.cont else None
        if inside is None and path[0] == "call" and path[1] in ("list", "tuple") and path[2]:
            path = path[2][0]
        for s in specs:
            loc = ("attr", s, "submodule_search_locations")
            if path == loc or inside and any(x.val == loc for x in inside):
                known = all(p.is_none(t) is False or p.truthy(t) is True or bool(p.st.types.get(t)) for t in (s, loc))
                ck.ob("robust", known, m.C, e.where, "the hook fails when the package the importer claims to be in is not found, or is no package")
            ok |= path == ("attr", s, "submodule_search_locations")
            if inside and len(inside) == 1:
                x = inside[0]
                ok |= x.mode == "seg" and x.val == ("attr", s, "submodule_search_locations") and not x.conds
                o = V.bind({("attr", s, "origin"): "/site/p/__init__.py"})
                ok |= x.mode == "item" and not x.loops and str(o.get(x.val)) == "/site/p"
    ck.ob("own", ok, m.C, last.where, "trying again does not look in the directory of the package")


# -- C29 ---------------------------------------------------------------------------
READ_ERRORS = ("SyntaxError", "ValueError", "UnicodeDecodeError", "RecursionError", "MemoryError")


def registered(ck, rule, hook, cls):
    """A new graph has the hook in its list of hooks exactly when the built-in hooks are asked for, which is the default."""
    fi = ck.repo.classes["ModuleGraph"].methods.get("__init__") if "ModuleGraph" in ck.repo.classes else None
    ck.need(fi, "ModuleGraph.__init__ not found")
    default_true(ck, rule, fi, "use_builtin_hooks")
    flag, SELF = ("sym", "use_builtin_hooks"), ("sym", "self")
    fn = ("func", f"modulegraph2.{hook}")
    for p in ck.run(ck.engine(opaque={"ModuleGraph.add_implies"}, types={flag: ("bool",)}), fi, label=f"ModuleGraph.__init__[{fn[1]}]"):
        if p.kind != "ret":
            continue
        held = [o for (b, a), o in p.st.heap.items() if b == SELF and o[0] == "obj" and o[2] == cls]
        lists = [v for (b, a), v in p.st.heap.items() if b in held and v in p.st.cont]
        n = sum(1 for v in lists for i in p.st.cont[v] if i.mode == "item" and i.val == fn)
        asked = p.truthy(flag)
        ck.ob(rule, asked is not None and n == (1 if asked else 0) or asked is None and n == 0 and False, "ModuleGraph.__init__", p.where(),
              f"the hook is registered {n} times in a graph made {'with' if asked else 'without'} built-in hooks")
    ck.instances(rule, 2)


def default_true(ck, rule, fi, name):
    a = fi.node.args
    pos = a.posonlyargs + a.args
    ds = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
    ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)})
    ck.need(name in ds or name in [x.arg for x in pos + a.kwonlyargs], f"{fi.name} has no {name}")
    d = ds.get(name)
    if isinstance(d, ast.Constant):
        ck.ob(rule, d.value is True, f"ModuleGraph.__init__:{name}", f"{fi.module.path}:{fi.node.lineno}", f"{name} is {d.value!r} when it is not given")


class Mypyc:
    def __init__(self, ck):
        self.ck = ck
        fi = ck.repo.func("_mypyc_support:mypyc_post_processing_hook")
        ck.need(fi, "mypyc_post_processing_hook not found")
        ps = fi.params()
        ck.need(len(ps) == 2, "parameters of mypyc_post_processing_hook")
        self.fi, self.graph, self.node = fi, ("sym", ps[0]), ("sym", ps[1])
        self.pil = q(ck.repo, "_process_import_list")
        decode = ("compile", "ast.parse", "importlib.util.decode_source")
        eng = ck.engine(opaque={"extract_ast_info", self.pil, "ModuleGraph.import_module"}, raise_only=set(decode) | {".read_text", ".decode"},
                        raises={**{d: READ_ERRORS for d in decode}, ".read_text": ("UnicodeDecodeError", "SyntaxError"), ".decode": ("UnicodeDecodeError",)})
        self.paths = ck.run(eng, fi, init=graph_init(self.graph))
        self.C = fi.name
        names = ("attr", ("attr", self.node, "distribution"), "import_names")
        self.names = names

    def nodes(self):
        """(node, expected source file or None)."""
        ck = self.ck
        P = pathlib.PurePosixPath
        dist = Rep(("PyPIDistribution",), name="dist", identifier="distribution@dist", files=set())
        for d in (dist, None):
            for f, s in (("/site/pkg/mod.cpython-312-x86_64-linux-gnu.so", "/site/pkg/mod.py"), ("/site/mod.so", "/site/mod.py"), ("/site/x.y/mod.abi3.so", "/site/x.y/mod.py"),
                         ("/site/pkg/mod.pyd", "/site/pkg/mod.py"), (None, None)):
                f = P(f) if f else None
                yield rep(ck, "ExtensionModule", "pkg.mod", filename=f, distribution=d), s if d else None
            init = rep(ck, "ExtensionModule", "pkg", filename=P("/site/pkg/__init__.cpython-312-x86_64-linux-gnu.so"), distribution=d)
            yield rep(ck, "Package", "pkg", filename=P("/site/pkg"), distribution=d, init_module=init), "/site/pkg/__init__.py" if d else None
            py = rep(ck, "SourceModule", "pkg", filename=P("/site/pkg/__init__.py"), distribution=d)
            yield rep(ck, "Package", "pkg", filename=P("/site/pkg"), distribution=d, init_module=py), None
            yield rep(ck, "SourceModule", "pkg.mod", filename=P("/site/pkg/mod.py"), distribution=d), None
            yield rep(ck, "BytecodeModule", "pkg.mod", filename=P("/site/pkg/mod.pyc"), distribution=d), None
            yield rep(ck, "NamespacePackage", "pkg", filename=None, distribution=d), None
        yield rep(ck, "MissingModule", "pkg.mod"), None
        yield rep(ck, "Script", "/bin/mod", filename=P("/bin/mod")), None
        yield rep(ck, "BuiltinModule", "sys"), None

    def loops(self, p):
        """Terms the hook goes through that stand for the distribution's import names."""
        out = {e.recv for e in p.evs("loopend")} | {k[1] for k in p.st.facts if k[0] in ("nonempty", "truth")}
        for k in p.st.facts:
            out |= {y[1] for y in walk(k) if y and y[0] == "elem"}
        for e in p.events:
            for a in (e.args.values() if isinstance(e.args, dict) else e.args):
                if isinstance(a, tuple):
                    out |= {y[1] for y in walk(a) if y and y[0] == "elem"}
        for L in list(out):
            if L in p.st.cont:
                out |= {x for i in p.st.cont[L] for x in i.loops}
        return [L for L in out if L == self.names or L in p.st.cont and any(i.val == self.names for i in p.st.cont[L])]


def C29(ck):
    R = ck.rule
    R("only", "nothing changes for a node that is no extension, has no distribution, no mypyc helper or no source next to it")
    R("acts", "every mypyc-compiled extension with its source next to it is handled")
    R("helper", "the node gets a link to a mypyc helper module of its distribution, once")
    R("source", "all imports of the source next to the node are processed as imports of the node, once")
    R("invalid", "source that cannot be decoded or parsed has no imports and does not end the build")
    R("registered", "a new graph uses the hook unless the built-in hooks are declined")
    registered(ck, "registered", "_mypyc_support:mypyc_post_processing_hook", "CallbackList")
    m = Mypyc(ck)
    cons = m.C
    acted, handled = set(), 0
    others = ("pkg.mod", "mypyc", "__mypyc.x", "abc__mypyc_")
    for nd, source in m.nodes():
        for there in (True, False, "directory"):
            for nm in ("0123abcd__mypyc", "pkg.x__mypyc", None) + others:
                helper = nm is not None and nm.endswith("__mypyc")
                for p in m.paths:
                    Ls = m.loops(p)
                    env = {m.node: nd}
                    for L in Ls:
                        if nm is not None:
                            env[elem(L)] = nm
                    d = nd.attrs["distribution"]
                    V = Values(p, env, funcs={".is_file": lambda x: there is True, ".exists": lambda x: bool(there), ".is_dir": lambda x: there == "directory",
                                               "os.path.isfile": lambda x: there is True, "os.path.exists": lambda x: bool(there), "os.path.isdir": lambda x: there == "directory"})
                    V.env[m.names] = [] if nm is None else [nm]
                    if d is None:
                        del V.env[m.names]
                    if V.holds(set(env)) is False:
                        continue
                    w = p.where()
                    eff = on_graph(p)
                    what = f"a {nd.classes[0]}" + ("" if d is not None else " without distribution") + (f" next to {'a' if there else 'no'} source file") + ("" if helper else " and without helper")
                    if there == "directory":
                        # reading it fails, which may be dealt with
                        if reads_source(p) and any(raised_by(h.args[0])[1] in NO_FILE for q in m.paths for h in q.evs("handler")):
                            continue
                        what = what.replace("next to a source file", "next to a directory with the name of a source file")
                    should = source is not None and there is True and helper
                    if p.kind == "raise":
                        fn, _ = raised_by(p.value)
                        known = fn in ("compile", "ast.parse", "importlib.util.decode_source", ".read_text", ".decode")
                        ck.ob("invalid" if known else "only", False, cons, w, f"raises {pretty(p.value)} for {what}")
                        continue
                    if not should:
                        ck.ob("only", not eff, cons, eff[0].where if eff else w, f"something changes for {what}")
                        if not helper:
                            early = [e for e in p.evs("loopend") if e.recv in Ls and e.fn != "exhausted"]
                            ck.ob("acts", not early, cons, w, f"the search for a helper ends at {nm}")
                        continue
                    # a break out of the search at a name that is no helper shows up above
                    if not eff and any(p.empty_iter(L) for L in Ls):
                        continue
                    handled += 1
                    ck.ob("acts", bool(eff), cons, w, f"nothing is done for {what} ({p.cond_text()})")
                    if eff:
                        acted.add(nd.classes[0])
                        act(ck, m, p, V, nd, source, nm, eff, what)
    ck.ob("acts", {"ExtensionModule", "Package"} <= acted, cons, cons, "nothing is ever done for some kind of extension")
    ck.instances("helper", 10)
    ck.instances("source", 10)
    ck.instances("only", 30)
    ck.instances("invalid", 4)


NO_FILE = ("OSError", "IOError", "EnvironmentError", "IsADirectoryError", "Exception", "BaseException")


def reads_source(p):
    return any(e.fn in (".read_bytes", ".read_text", ".read", "open", ".open", "io.open", "tokenize.open", "io.open_code") for e in p.evs("call"))


def act(ck, m, p, V, nd, source, nm, eff, what):
    cons, w = m.C, p.where()
    imports = [e for e in eff if e.fn == "ModuleGraph.import_module"]
    pils = [e for e in eff if e.fn == m.pil]
    ok = len(imports) == 1 and not imports[0].kw and imports[0].args.get("importing_module") == m.node
    name = imports[0].args.get("import_name") if imports else None
    ok = ok and V.get(name) == nm
    ck.ob("helper", ok, cons, w, f"the node is linked to {pretty(name) if imports else 'no helper module'} for {what}")
    other = [e for e in eff if e not in imports and e not in pils and not (e.kind in EFFECTS and e.recv is not None and e.recv == m.graph)]
    ck.ob("only", not other, cons, other[0].where if other else w, "something else changes")
    # the source
    handlers = [e for e in p.evs("handler") if raised_by(e.args[0])[0] is not None]
    parses = [e for e in p.evs("call", ("compile", "ast.parse"))]
    reads = [e for e in p.evs("call") if e.fn in (".read_bytes", ".read_text", ".read", "open", ".open", "io.open", "tokenize.open", "io.open_code")]
    ok = False
    for e in reads:
        f = e.recv if e.recv is not None else e.args[0] if e.args else None
        ok |= f is not None and str(V.get(f)) == source
        if e.fn == ".read_text" or e.fn in ("open", ".open", "io.open") and not any(V.get(a) in ("rb", "br") for a in list(e.args) + [v for _, v in e.kw]):
            ck.ob("source", False, cons, e.where, "the source is read as text, whatever its encoding")
    ck.ob("source", ok, cons, w, f"the source that is read is not {source} for {what}")
    if handlers:
        ck.ob("invalid", not pils, cons, w, f"imports are processed though {pretty(handlers[0].args[0])} was raised")
        return
    ck.ob("source", len(parses) == 1, cons, w, f"the source is parsed {len(parses)} times")
    if len(parses) != 1:
        return
    c = parses[0]
    ck.ob("source", any(e.ret in walk(c.args[0]) for e in reads), cons, c.where, "what is parsed is not the source")
    if c.fn == "compile":
        flags = dict(c.kw).get("flags", c.args[3] if len(c.args) > 3 else None)
        ck.ob("source", flags is not None and ("ext", "ast.PyCF_ONLY_AST") in walk(flags), cons, c.where, "the source is compiled, not parsed")
        mode = c.args[2] if len(c.args) > 2 else dict(c.kw).get("mode")
        ck.ob("source", mode == C("exec"), cons, c.where, "the source is not parsed as a module")
    xs = [e for e in p.evs("call", "extract_ast_info") if c.ret in e.args.values()]
    ck.ob("source", len(xs) == 1, cons, w, "the imports are not taken from the source")
    if len(xs) != 1:
        return
    x = xs[0]
    if p.empty_iter(x.ret) and not pils:
        return
    ok = len(pils) == 1 and not pils[0].loops
    ck.ob("source", ok, cons, w, f"the imports of the source are processed {len(pils)} times ({p.cond_text()})")
    if not ok:
        return
    a = [v for k, v in pils[0].args.items() if k != "self"]
    v = a[1] if len(a) > 1 else None
    whole = v == x.ret or v in p.st.cont and len(p.st.cont[v]) == 1 and not p.st.cont[v][0].conds and (
        p.st.cont[v][0].val == x.ret or p.st.cont[v][0].val == elem(x.ret) and p.st.cont[v][0].loops == (x.ret,))
    ck.ob("source", a[0] == m.node and whole, cons, pils[0].where, f"what is processed is {pretty(v)} for {pretty(a[0])}")
