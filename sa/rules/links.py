"""C27, C30, C31: hook import APIs, aliases, recursion."""
import ast

from ..callgraph import CallGraph
from ..rulekit import *  # noqa: F401,F403
from ..rulekit import C, FALSE, NONE, SELF, TRUE, Names, P, calls, cat, edges, graph_init, graph_method, is_default, node_for, node_name, pretty, same, stack_of, sym, walk, ws_attr
from ..repo import AnalysisBroken
from .build import A, LoadModel, NameModel, PUBLIC, cond_extra, drain_name, fresh_rule, hook_attr, idx, namelist_rules, once_rule, real_parent_rule, ret_or_violation, star_seen


# ---------------------------------------------------------------------------- hook import APIs
def listing(t, S):
    """('py'|'all', name function) when t lists what is in one search location of S."""
    if not t or t[0] not in ("call", "m"):
        return None
    loc = [("elem", s, 0) for s in S]
    if not any(x in loc for x in walk(t)):
        return None
    fn = t[1].split(".")[-1]
    if fn == "glob":
        pat = t[2][-1] if t[0] == "call" else t[3][-1]
        if pat == C("*.py"):
            return "py"
        if pat == C("*"):
            return "all"
        if pat[0] == "cat" and pat[1] and pat[1][-1][0] == "c" and str(pat[1][-1][2]).endswith("/*.py"):
            return "py"
        return None
    if fn in ("iterdir", "listdir", "scandir"):
        return "all"
    return None


def listed(t, S):
    """Listings whose element term t is derived from."""
    out = set()
    for x in walk(t):
        if x and x[0] == "elem":
            for y in walk(x[1]):
                k = listing(y, S)
                if k:
                    out.add((k, y))
    return out


def child_name(p, t, pkg):
    """X when t is the dotted name of a child X of the package."""
    if t is None or t[0] != "cat" or len(t[1]) < 3:
        return None
    for b in pkg:
        bp = b[1] if b[0] == "cat" else (b,)
        if tuple(t[1][:len(bp)]) == tuple(bp) and t[1][len(bp)] == C("."):
            rest = t[1][len(bp) + 1:]
            return rest[0] if len(rest) == 1 else ("cat", tuple(rest))
    return None


def facts_on(p, x):
    """(kind, term, value) of what the path knows about terms derived from element x."""
    out = []
    for k, v in p.st.facts.items():
        if k[0] in ("truth", "eq", "in") and any(x in set(walk(y)) for y in k[1:] if isinstance(y, tuple)):
            out.append((k, v))
    for k, d in p.st.dom.items():
        if x in set(walk(k)):
            out.append((("dom", k), d))
    return out


def is_dir_term(t):
    return t and t[0] in ("call", "m") and t[1].split(".")[-1] in ("is_dir", "isdir")


def py_term(k):
    """Is fact key k a test for a Python source file name?"""
    if k[0] == "truth":
        t = k[1]
        return t[0] == "m" and t[1] == "endswith" and t[3][:1] == (C(".py"),)
    if k[0] == "eq":
        return C(".py") in k[1:3]
    if k[0] == "dom":
        return k[1][0] == "attr" and k[1][2] == "suffix"
    return False


def known(p, x, what):
    """What the path knows about element x: is it a directory / Python file / identifier / special name?"""
    for k, v in facts_on(p, x):
        if what == "dir" and k[0] == "truth" and is_dir_term(k[1]):
            return v
        if what == "py" and py_term(k):
            if k[0] == "dom":
                r = {c[2] == ".py" for c in v[1]}
                if v[0] == "in" and len(r) == 1:
                    return r.pop()
                if v[0] == "notin" and True in r:
                    return False
                continue
            return v
        if what == "ident" and k[0] == "truth" and k[1][0] == "m" and k[1][1] == "isidentifier":
            return v
        if what == "file" and k[0] == "truth" and k[1][0] in ("call", "m") and k[1][1].split(".")[-1] in ("is_file", "isfile"):
            return v
    return None


def special(p, x, names):
    """Does the path know that a name derived from x is one of `names`: True, False, None?"""
    res = None
    for k, v in facts_on(p, x):
        if k[0] == "dom":
            cs = {c[2] for c in v[1] if c[0] == "c"}
            if v[0] == "in" and cs and cs <= set(names):
                return True
            if (v[0] == "notin" and cs & set(names)) or (v[0] == "in" and not cs & set(names)):
                res = False
        if k[0] == "eq" and any(C(n) in k[1:3] for n in names):
            if v:
                return True
            res = False
    return res


PYSPECIAL = ("__init__", "__init__.py")
DIRSPECIAL = ("__pycache__",)


def C27(ck):
    R = ck.rule
    R("module", "import_module links the importer to the node of the name and returns that node")
    R("package", "import_package links the importer to the node of the package and returns that node")
    R("only", "for anything but a regular package nothing more is done")
    R("locations", "all search locations of the package are listed, to the end")
    R("each", "every Python file and directory with an importable name is added below the package, linked from it")
    R("skip", "names that are no identifiers, __init__ and __pycache__ are not added")
    n = Names(ck.repo)
    rs = drain_name(ck.repo)
    fi = graph_method(ck.repo, "import_module")
    cons = "ModuleGraph.import_module"
    imp, name = (("sym", x) for x in [x for x in fi.params() if x != "self"][:2])
    for p in ck.run(ck.engine(opaque=n.opaque | {rs}), fi, init=graph_init()):
        if not ret_or_violation(ck, "module", p, cons, "importing a module"):
            continue
        w = p.where()
        es = edges(p)
        ck.ob("module", node_for(p, n, p.value, name), cons, w, f"the result is {pretty(p.value)}, not the node of the name")
        ck.ob("module", len(es) == 1 and es[0][0] == imp and same(p, es[0][1], p.value) and not es[0][3].loops, cons, w, f"the importer is not linked once to the node of the name ({p.cond_text()})")
        mine = [e for e in p.evs("graph", "add_node") + p.evs("graph", "add_root")]
        ck.ob("module", not mine and len(calls(p, n.folm)) <= 1, cons, w, "something else is added")
    fi = graph_method(ck.repo, "import_package")
    cons = "ModuleGraph.import_package"
    imp, name = (("sym", x) for x in [x for x in fi.params() if x != "self"][:2])
    paths = ck.run(ck.engine(opaque=n.opaque | {rs}), fi, init=graph_init())
    seen = set()
    for p in paths:
        if p.kind == "raise":
            ck.ob("package", False, cons, p.where(), f"importing a package raises {pretty(p.value)} ({p.cond_text()})")
            continue
        package_path(ck, p, n, rs, imp, name, cons, seen)
    listing_errors(ck, "locations", n, rs, fi, cons)
    ck.ob("each", "py" in seen, cons, cons, "Python files of a package are never added")
    ck.ob("each", "dir" in seen, cons, cons, "directories of a package are never added")
    ck.instances("package", 10)
    ck.instances("each", 8)
    ck.assumptions.append("a package is listed through glob, iterdir, listdir or scandir of its search locations; packages outside the file system are out of scope (documented)")


def package_path(ck, p, n, rs, imp, name, cons, seen):
    w = p.where()
    N = p.value
    ck.ob("package", node_for(p, n, N, name), cons, w, f"the result is {pretty(N)}, not the node of the package")
    es = edges(p)
    own = [e for e in es if e[0] == imp and same(p, e[1], N)]
    ck.ob("package", len({e[:2] for e in own}) == 1 and not any(e[3].loops for e in own), cons, w, f"the importer is not linked to the package ({p.cond_text()})")
    st = stack_of(p) or []
    pkg = (name, A(N, "name"), A(N, "identifier"))
    work = [x for x in st if x.kind != "seg"]
    adds = []         # (child term, event or work item, how)
    bad = []
    for x in work:
        if x.target == "ModuleGraph.import_package" and len(x.args) == 3 and x.args[1] == N:
            c = child_name(p, x.args[2], pkg)
            adds.append((c, x, "push"))
            if c is None:
                bad.append(x)
        else:
            bad.append(x)
    for e in p.evs("recurse"):
        if e.fn == "ModuleGraph.import_package":
            vs = list(e.args.values())
            adds.append((child_name(p, vs[-1], pkg), e, "push"))
    for e in calls(p, n.folm):
        if same(p, e.args.get("module_name"), name) and not e.loops:
            continue
        adds.append((child_name(p, e.args.get("module_name"), pkg), e, "load"))
    for e in p.evs("query", "find_node"):
        c = child_name(p, e.arg("node", 0), pkg)
        if c is not None and p.is_none(e.ret) is False:
            adds.append((c, e, "load"))
    other = [e for e in es if e not in own and not (e[0] == N and any(a.kind != "seg" and getattr(a, "ret", None) == e[1] for _, a, h in adds if h == "load"))]
    if p.isinst(N, "Package") is not True:
        ck.ob("only", not adds and not work and not other, cons, w, f"more is done although the node need not be a package ({p.cond_text()})")
        if p.isinst(N, "Package") is None and not adds:
            ck.ob("only", False, cons, w, f"regular packages are not told apart ({p.cond_text()})")
        return
    ck.ob("each", not bad and not other, cons, w, f"something else is scheduled or linked: {bad or [pretty(e[1]) for e in other]}")
    S = {t for e in p.events for v in ([e.recv] if e.recv else []) + list(e.loops) for t in walk(v) if is_locations(p, t, N, name)}
    S |= {t for k in p.st.facts for t in walk(k) if is_locations(p, t, N, name)}
    if not ck.ob("locations", bool(S), cons, w, f"the search locations of the package are not looked at ({p.cond_text()})"):
        return
    if any(p.empty_iter(s) or p.truthy(s) is False or p.is_none(s) is True for s in S):
        ck.ob("locations", not adds, cons, w, "children are added for a package without search locations")
        return
    for e in p.evs("loopend"):
        if e.recv in S or any(listing(t, S) for t in walk(e.recv)):
            ck.ob("locations", e.fn == "exhausted", cons, w, f"the entries after some entry of a package are not looked at ({p.cond_text()})")
    if location_dir(p, S) is False or listing_failed(p):
        ck.ob("locations", not adds, cons, w, "children are added for a location that is not a directory")
        return
    terms = {t for k in list(p.st.facts) for t in walk(k) if listing(t, S)} | {t for e in p.events for v in list(e.loops) + ([e.ret] if e.ret else []) for t in walk(v) if listing(t, S)}
    ck.ob("locations", bool(terms), cons, w, f"the search locations of the package are not listed ({p.cond_text()})")
    covers = {"py": False, "dir": False}
    for L in terms:
        k = listing(L, S)
        x = next((y for kk in list(p.st.facts) + list(p.st.dom) for y in walk(kk) if y and y[0] == "elem" and L in set(walk(y[1]))), None)
        for c, a, how in adds:
            for z in walk(c or ()):
                if z and z[0] == "elem" and L in set(walk(z[1])):
                    x = z
        if p.empty_iter(L):
            covers["py"] = True
            covers["dir"] = covers["dir"] or k == "all"
            continue
        if x is None:
            continue
        mine = [(c, a, how) for c, a, how in adds if c is not None and x in set(walk(c))]
        d, py = known(p, x, "dir"), True if k == "py" else known(p, x, "py")
        for c, a, how in mine:
            if not any(good_component(c, x, kd) for kd in ("py", "dir")):
                ck.ob("each", False, cons, w, f"an entry is added under {pretty(c)}")
        for kind, names, yes, no in (("py", PYSPECIAL, py, d), ("dir", DIRSPECIAL, d, py)):
            if kind == "dir" and k == "py":
                continue
            hit = [(c, a, how) for c, a, how in mine if good_component(c, x, kind)]
            if yes is True:
                covers[kind] = True
            if hit:
                seen.add(kind)
                ck.ob("skip", yes is True, cons, w, f"an entry is added as {kind} without asking whether it is one ({p.cond_text()})")
                for c, a, how in hit:
                    ck.ob("skip", p.truthy(("m", "isidentifier", c, ())) is True, cons, w, f"a {kind} entry is added without asking whether its name is an identifier ({p.cond_text()})")
                    ck.ob("skip", special(p, x, names) is False, cons, w, f"a {kind} entry is added without setting {names[0]} aside ({p.cond_text()})")
                    ck.ob("each", covers_loop(a, S), cons, w, "an entry is added outside the listing of the locations")
                    if how == "load":
                        ck.ob("each", any(e[0] == N and e[1] == a.ret for e in es) or any(h == "push" for _, _, h in hit), cons, w, f"a child is added without a link from its package ({p.cond_text()})")
                continue
            excuse = any(kk[0] == "truth" and v is False and kk[1][0] == "m" and kk[1][1] == "isidentifier" and good_component(kk[1][2], x, kind) for kk, v in facts_on(p, x))
            skip = excuse or special(p, x, names) is True or yes is False or (no is True and k == "all") or (kind == "py" and known(p, x, "file") is False)
            if yes is True or (yes is None and k == "all" and kind in wants(p, x)):
                ck.ob("each", skip, cons, w, f"a {kind} entry of a package is left out ({p.cond_text()})")
    ck.ob("locations", any(listing(L, S) == "all" for L in terms), cons, w, f"the directories of a location are not listed ({p.cond_text()})")


LISTING = {".iterdir": ("NotADirectoryError", "FileNotFoundError"), "os.listdir": ("NotADirectoryError", "FileNotFoundError"),
           "os.scandir": ("NotADirectoryError", "FileNotFoundError"), "pathlib.Path.iterdir": ("NotADirectoryError", "FileNotFoundError")}


def location_dir(p, S):
    """Is a search location known to be a directory?"""
    for k, v in p.st.facts.items():
        if k[0] == "truth" and is_dir_term(k[1]):
            x = k[1][2][0] if k[1][0] == "call" and k[1][2] else k[1][2] if k[1][0] == "m" else None
            while x and x[0] == "call" and len(x[2]) == 1:
                x = x[2][0]
            if x and x[0] == "elem" and x[1] in S:
                return v
    return None


def listing_failed(p):
    for e in p.evs("handler"):
        x = e.args[0]
        if x[0] == "exc" and len(x) > 2 and isinstance(x[2], tuple) and x[2] and x[2][0] in LISTING:
            return True
    return False


def listing_errors(ck, rule, n, rs, fi, cons):
    """A search location that is not a directory (in a zip file, or removed) is passed over."""
    eng = ck.engine(opaque=n.opaque | {rs}, raise_only=set(LISTING), raises=LISTING)
    tried = 0
    for p in ck.run(eng, fi, init=graph_init(), label=fi.name + "[faults]"):
        v = p.value
        tried += any(e.fn in LISTING for e in p.evs("call"))
        if p.kind != "raise" or v[0] != "exc" or len(v) < 3 or not isinstance(v[2], tuple) or not v[2] or v[2][0] not in LISTING:
            continue
        e = p.events[v[2][1]]
        S = {y[1] for t in [e.recv] + list(e.args if not isinstance(e.args, dict) else e.args.values()) if t for y in walk(t) if y and y[0] == "elem"}
        ck.ob(rule, location_dir(p, S) is True, cons, e.where, f"a search location that is not a directory ends the build with {pretty(v)}")
    return tried


def wants(p, x):
    """Kinds of entry the path has asked about."""
    return {k for k in ("py", "dir") if known(p, x, k) is not None}


def covers_loop(a, S):
    loops = a.loops
    return any(s in set(walk(l)) for s in S for l in loops)


def good_component(c, x, kind):
    """Is c the stem (Python file) or name (directory) of element x?"""
    if kind == "dir":
        return c == x or (c[0] == "attr" and c[1] == x and c[2] == "name") or (c[0] == "call" and c[1].endswith("basename"))
    return (c[0] == "attr" and c[2] == "stem") or (c[0] in ("slice", "m", "item") and (c[0] != "m" or c[1] in ("removesuffix",)))


def is_locations(p, t, N, name):
    # the locations of the spec do not have what explicit namespace packages add to their path
    if not t or t[0] != "attr":
        return False
    return t[2] == "search_path" and t[1] == N


# ---------------------------------------------------------------------------- aliases
def C30(ck):
    R = ck.rule
    R("told", "a located module whose name differs from the name asked for is recognised")
    R("alias", "such a name gives an alias node under the requested name, referring and linked to the node of the real module")
    R("real", "the real module is added only when unknown, with its own imports processed once and a link to its package")
    for r, t in (("each", "names imported through an alias are handled one by one"), ("global", "a name bound by an import of the real module is linked to that import's target"),
                 ("submodule", "an unbound name of a real package is resolved as its submodule"), ("missing", "a merely bound name gets no missing-module edge"),
                 ("attrs", "from-list edges carry the statement's flags"), ("moved", "names of an aliased six.moves package lead to the modules they stand for"),
                 ("star", "a star import through an alias binds the globals of the real module")):
        R(r, t)
    m = LoadModel(ck)
    n = m.n
    did = set()
    for p in m.paths:
        if p.kind != "ret":
            continue
        w = p.where()
        for X, imports, ev in m.located(p):
            nm = node_name(p, X)
            eq = p.eq(nm, m.name)
            adds = [e for e in m.added(p) if e.arg("node", 0) == X]
            if eq is None:
                ck.ob("told", False, m.C, ev.where, f"a located module is used without comparing its name with the one asked for ({p.cond_text()})")
                continue
            if eq is True:
                if p.isinst(X, "MissingModule") is True:
                    continue  # C10: nothing was located after all
                ck.ob("told", p.value == X and len(adds) == 1, m.C, w, f"a located module of the requested name is not the result ({p.cond_text()})")
                continue
            new = [e for e in p.evs("new", "AliasNode") if same(p, node_name(p, e.recv), m.name)]
            if not ck.ob("alias", len(new) == 1 and p.value == new[0].recv, m.C, w, f"a name that resolves to another module gives {pretty(p.value)} ({p.cond_text()})"):
                continue
            N = new[0].recv
            act = p.st.heap.get((N, "actual_module"))
            ck.ob("alias", act is not None and same(p, act, nm), m.C, new[0].where, f"the alias refers to {pretty(act) if act else None}")
            ck.ob("alias", len([e for e in m.added(p) if e.arg("node", 0) == N]) == 1, m.C, new[0].where, "the alias is not added to the graph")
            tg = [e for e in edges(p) if same(p, e[0], N) and not parent_target(p, m, e[1])]
            ok = bool(tg) and all(is_real(p, m, e[1], X, nm) for e in tg)
            ck.ob("alias", ok, m.C, w, f"the alias is linked to {', '.join(pretty(e[1]) for e in tg) or 'nothing'}, not to the node of the real module ({p.cond_text()})")
            did.add("added" if adds else "known")
            found = [e for e in p.evs("query", "find_node") if same(p, e.arg("node", 0), nm) and p.is_none(e.ret) is False]
            if found:
                ck.ob("real", not adds, m.C, w, "a known real module is added again")
            if adds:
                pl = [e for e in m.pils(p) if same(p, e.args.get("node"), X)]
                ck.ob("real", len(pl) == 1 and pl[0].args.get("imports") == imports and not pl[0].loops, m.C, w, f"the imports of the real module are scheduled {len(pl)} times ({p.cond_text()})")
                ck.ob("real", not parent_only(p, m, X), m.C, w, "the real module is linked to the package of the alias")
        fresh_alias(ck, p, n, m)
    real_parent_rule(ck, "real", m)
    ck.ob("alias", "added" in did, m.C, m.C, "no real module behind an alias is ever added")
    nmod = NameModel(ck)
    paths = [p for p in nmod.paths if nmod.is_alias(p) is not False]
    ck.need(paths, "names imported through an alias are not analysed")
    namelist_rules(ck, nmod, paths)
    ok = any(p.truthy(nmod.star) is True and any(e.kind == "mut" for e in p.events) for p in paths)
    ck.ob("star", ok, nmod.C, nmod.C, "a star import through an alias never binds anything")
    ck.instances("alias", 8)
    ck.instances("real", 4)
    ck.instances("each", 4)


def fresh_alias(ck, p, n, m):
    saved = ck.rules["real"]
    if [e for e in m.located(p) if p.eq(node_name(p, e[0]), m.name) is False]:
        fresh_rule(ck, "real", p, n, m.C, lambda e: True)
    assert saved is ck.rules["real"]


def parent_target(p, m, t):
    pc = m.parent_call(p)
    return pc is not None and same(p, t, pc.ret)


def parent_only(p, m, X):
    pc = m.parent_call(p)
    return pc is not None and any(same(p, s, X) and same(p, d, pc.ret) for s, d, _, _ in edges(p)) and not any(
        same(p, s, X) and d == e.ret for s, d, _, _ in edges(p) for e in m.recs(p) if e is not pc)


def is_real(p, m, t, X, nm):
    """Is t the graph's node for the real module on this path?"""
    if t == X:
        return any(e.arg("node", 0) == X for e in m.added(p))
    for e in p.evs("query", "find_node"):
        if e.ret == t and same(p, e.arg("node", 0), nm) and p.is_none(t) is False:
            return True
    for e in p.events:
        if e.kind in ("call", "recurse") and e.ret == t and isinstance(e.args, dict) and any(same(p, v, nm) for k, v in e.args.items() if v is not None):
            return True
    for c in ("AliasNode", "VirtualNode", "ExcludedModule", "MissingModule"):
        for e in p.evs("new", c):
            if e.recv == t and same(p, node_name(p, t), nm):
                return True
    return False


# ---------------------------------------------------------------------------- recursion
RECURSIVE_LIBRARY = ("ast.dump", "ast.unparse", "ast.NodeVisitor.visit", "copy.deepcopy", "ast.fix_missing_locations_recursive")


def C31(ck):
    R = ck.rule
    R("imports", "processing an import never leads, by calls, to processing further imports: that is only put on the work list")
    R("drain", "the pending work is drained by a loop; nothing it runs drains it again")
    R("nested", "the nested drain of import_package has no import_package work of its own")
    R("scan", "no function that scans source or bytecode calls itself, directly or through others, and none uses recursive visitors")
    g = CallGraph(ck.repo)
    n = Names(ck.repo)
    rs = drain_name(ck.repo)
    cls = ck.repo.classes["ModuleGraph"]

    def meth(q):
        f = g.methods.get(("ModuleGraph", q.split(".")[-1]))
        if f is None:
            raise AnalysisBroken(f"{q} not found")
        return f
    drain = meth(rs)
    ip = meth("import_package")
    extra = hook_edges(ck, g)
    work = {h for f in g.fns if f.module is cls.module for h, _ in f.refs if h.cls is cls and h is not ip}
    pc = g.methods.get(("CallbackList", "__call__"))
    if pc:
        work.add(pc)
    dyn = {drain: [(h, drain.node.lineno, "work") for h in sorted(work, key=lambda x: x.qual)]}
    full = {k: list(v) for k, v in extra.items()}
    full.setdefault(drain, []).extend(dyn[drain])
    allf = set(g.fns)
    barred = {meth(x) for x in (n.pi, n.pnl, n.pil)} | {meth(x) for x in PUBLIC}
    where = lambda f, line=None: f"{rel(ck, f)}:{line or f.node.lineno}"  # noqa: E731
    for f in sorted(barred, key=lambda x: x.qual):
        c = g.cycle_through(f, allf, extra)
        ck.ob("imports", c is None, f.path, where(f, c and c[1]), f"processing recurses: {c[0] if c else ''}")
    # any other cycle must be free of import processing of its own
    for f in g.fns:
        if f in barred or f.cls is not cls and g._cls(f) is not cls:
            continue
        c = g.cycle_through(f, allf, extra)
        reads = sorted({x.attr for x in g._own(f) if isinstance(x, ast.Attribute) and x.attr in ("import_level", "import_names", "star_import")})
        ck.ob("imports", c is None or not reads, f.path, where(f), f"{f.path} looks at an import's {', '.join(reads)} and recurses: {c[0] if c else ''}")
    c = g.cycle_through(drain, allf, full)
    ck.ob("drain", c is None, drain.path, where(drain, c and c[1]), f"draining recurses: {c[0] if c else ''}")
    for f in sorted(work, key=lambda x: x.qual):
        r = g.reach([f], extra)
        ck.ob("drain", drain not in r, f.path, where(f), f"work drains the pending work again: {g.chain(r, drain) if drain in r else ''}")
        ck.ob("drain", ip not in r, f.path, where(f), f"work imports whole packages: {g.chain(r, ip) if ip in r else ''}")
    loops = [x for x in ast.walk(drain.node) if isinstance(x, (ast.While, ast.For))]
    ck.ob("drain", bool(loops), drain.path, where(drain), "the pending work is not drained by a loop")
    nested(ck, "nested", n, rs)
    c = g.cycle_through(ip, allf, extra)
    ck.ob("nested", c is None, ip.path, where(ip, c and c[1]), f"importing a package recurses into its subpackages: {c[0] if c else ''}")
    scanners = [g.find("_ast_tools:extract_ast_info"), g.find("_bytecode_tools:extract_bytecode_info")]
    if None in scanners:
        raise AnalysisBroken("scanner functions not found")
    r = g.reach(scanners, extra)
    for f in sorted(r, key=lambda x: x.qual):
        if f.cls is not None and f.cls.name in ("CallbackList", "FirstNotNone", "_CallbackListBase"):
            continue
        c = g.cycle_through(f, set(r), extra)
        ck.ob("scan", c is None, f.path, where(f, c and c[1]), f"scanning recurses: {c[0] if c else ''}")
        for x, line in f.ext:
            ck.ob("scan", x not in RECURSIVE_LIBRARY and x not in (".visit", ".generic_visit"), f.path, where(f, line), f"{x} recurses into nested nodes")
    for ci in ck.repo.classes.values():
        vis = any(str(b).split(".")[-1] in ("NodeVisitor", "NodeTransformer") for c2 in ck.repo.mro(ci) for b in c2.ext_bases)
        used = any(isinstance(x, ast.Name) and x.id == ci.name for f in r for x in ast.walk(f.node))
        ck.ob("scan", not (vis and used), ci.name, f"{ci.module.path}:{ci.node.lineno}", "a recursive tree visitor is used for scanning")
    ck.functions |= {f.qual for f in r} | {f.qual for f in work} | {f.qual for f in barred}
    ck.instances("imports", 12)
    ck.instances("drain", 5)
    ck.instances("scan", 6)
    ck.assumptions.append("user-supplied hooks do not call the public operations or drain the pending work; recursion along the dots of one name, "
                          "along aliases and along implied actions is bounded by the name and the configuration, not by import chains")


def rel(ck, f):
    import os
    return os.path.relpath(f.module.path, ck.repo.root)


def hook_edges(ck, g):
    """Calls through the callback lists: the lists' users call them, they call the registered hooks."""
    attrs = {hook_attr(ck.repo): "FirstNotNone", hook_attr(ck.repo, "CallbackList", "_post_processing"): "CallbackList"}
    apis = {"add_missing_hook": "FirstNotNone", "add_post_processing_hook": "CallbackList"}
    extra = {}
    for f in g.fns:
        for x in g._own(f):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                if x.func.attr in attrs:
                    t = g.methods.get((attrs[x.func.attr], "__call__"))
                    if t:
                        extra.setdefault(f, []).append((t, x.lineno, "call"))
                if x.func.attr in apis:
                    t = g.methods.get((apis[x.func.attr], "__call__"))
                    for a in x.args:
                        for h in g._resolve(f, a)[0] if isinstance(a, ast.Name) else ():
                            extra.setdefault(t, []).append((h, x.lineno, "hook"))
    return extra


def nested(ck, rule, n, rs):
    """At every nested drain, the list being drained holds no package import that is still pending."""
    wa = ws_attr(ck.repo)

    def stack_now(eng, st):
        o = st.heap.get((SELF, wa))
        return ("tup", tuple(i.val for i in st.cont[o])) if o in st.cont else o if o is not None else A(SELF, wa)
    fi = graph_method(ck.repo, "import_package")
    cons = "ModuleGraph.import_package"
    eng = ck.engine(opaque=n.opaque | {rs}, watch={rs: stack_now})
    for p in ck.run(eng, fi, init=graph_init()):
        for e in calls(p, rs):
            v = dict(e.kw).get("watched")
            bad = v is None or any(x and x[0] == "bm" and x[2].endswith("import_package") for x in walk(v))
            ck.ob(rule, not bad, cons, e.where, f"package imports are drained inside a package import ({p.cond_text()})")
        ck.ob(rule, True, cons, p.where(), "")


# ---------------------------------------------------------------------------- distributions as nodes
def C34(ck):
    R = ck.rule
    R("node", "the distribution given, or the installed one of the name given, becomes the node, once")
    R("links", "the distribution gets a plain edge to the node of every name it provides")
    R("again", "a distribution that is in the graph is answered with its node, and nothing changes")
    n = Names(ck.repo)
    fi = graph_method(ck.repo, "add_distribution")
    given = ("sym", [x for x in fi.params() if x != "self"][0])
    cons = "ModuleGraph.add_distribution"
    linked = again = 0
    for p in ck.run(ck.engine(opaque=n.opaque | {drain_name(ck.repo), "distribution_named"}, types={given: ("PyPIDistribution", "str")}, skip_prev=True), fi, init=graph_init()):
        if p.kind != "ret":
            continue
        w = p.where()
        named = [e for e in calls(p, "distribution_named")]
        by_name = p.isinst(given, "str") is True
        if by_name and not named:
            ck.ob("node", False, cons, w, "a distribution name is not looked up")
            continue
        if by_name:
            ck.ob("node", same(p, named[-1].args.get("name"), given), cons, named[-1].where, "another name than the one given is looked up")
        D = named[-1].ret if by_name else given
        adds = p.evs("graph", "add_node")
        if not adds:
            again += 1
            found = [e.ret for e in p.evs("query", "find_node") if e.arg("node", 0) in (D, A(D, "identifier")) and p.is_none(e.ret) is False]
            ck.ob("again", bool(found) and p.value in (found[-1], D) and not edges(p) and not p.evs("graph", "add_root"), cons, w,
                  f"a distribution that is not known to be in the graph is not added, or the graph changes ({p.cond_text(4)})")
            continue
        ck.ob("node", len(adds) == 1 and adds[0].arg("node", 0) == D and p.value == D, cons, adds[0].where, f"{pretty(adds[0].arg('node', 0))} is added, {pretty(p.value)} is the result")
        names = A(D, "import_names")
        if any(k[0] in ("nonempty", "truth") and v is False and any(y == names for y in walk(k)) for k, v in p.st.facts.items()):
            ck.ob("links", not edges(p), cons, w, "a distribution that provides no names gets an edge")
            continue

        def over(r):
            return r is not None and (r == names or r in p.st.cont and [(i.mode, i.val) for i in p.st.cont[r]] == [("seg", names)] and not p.st.minus.get(r)
                                      or r[0] == "call" and r[1] in ("sorted", "list", "tuple", "iter", "reversed", "set", "frozenset") and len(r[2]) == 1 and over(r[2][0]))
        ends = [e for e in p.evs("loopend") if over(e.recv)]
        if not ck.ob("links", bool(ends) and all(e.fn == "exhausted" for e in ends), cons, ends[-1].where if ends else w, f"the names the distribution provides are not all looked at ({p.cond_text(4)})"):
            continue
        elems = {("elem", e.recv, 0) for e in ends} | {("elem", names, 0)}
        es = [e for e in edges(p) if e[0] == D]
        good = [e for e in es if is_default(e[2]) and any(node_for(p, n, e[1], x) for x in elems) and e[3].idx > adds[0].idx]
        ck.ob("links", len(es) >= 1 and len(good) == len(es), cons, es[0][3].where if es else w,
              f"the distribution gets {'no edge' if not es else 'the edge ' + ', '.join(pretty(e[1]) for e in es)} for a name it provides ({p.cond_text(4)})")
        ck.ob("links", not [e for e in edges(p) if e[0] != D], cons, w, "adding a distribution links other nodes")
        linked += len(good)
    ck.ob("links", linked > 0, cons, cons, "no distribution is ever linked")
    ck.ob("again", again > 0, cons, cons, "a distribution is added even when it is in the graph")
    for r in ("node", "links"):
        ck.instances(r, 1)


# ---------------------------------------------------------------------------- explicit namespace packages
JOINERS = ("pkgutil", "pkg_resources")


def C35(ck):
    R = ck.rule
    R("told", "whether a located package is put together by pkgutil or pkg_resources is looked at before it is done with")
    R("edge", "such a package gets a plain edge to the node of the module that puts it together")
    R("only", "no other node gets such an edge")
    m = LoadModel(ck)
    did = set()
    for p in m.paths:
        if p.kind != "ret":
            continue
        for X, _, ev in m.located(p):
            adds = [e for e in m.added(p) if e.arg("node", 0) == X]
            if not adds:
                continue
            pkg = p.isinst(X, "Package")
            T = A(X, "namespace_type")
            is_ = {j: p.eq(T, C(j)) for j in JOINERS}
            d = p.st.dom.get(T)
            yes = any(v is True for v in is_.values()) or d is not None and d[0] == "in" and all(c[2] in JOINERS for c in d[1])
            no = pkg is False or p.is_none(T) is True or p.truthy(T) is False or all(v is False for v in is_.values())
            es = [e for e in edges(p) if e[0] == X and (e[1] is not None) and any(node_for(p, m.n, e[1], t) for t in (T,) + tuple(C(j) for j in JOINERS))]
            w = adds[0].where
            if not ck.ob("told", bool(yes) or bool(no), m.C, w, f"a located package is added without a look at how it is put together ({p.cond_text(9)})"):
                continue
            if yes:
                did.add("aliased" if p.value != X else "plain")
                want = [T] + [C(j) for j in JOINERS if is_[j] is True]
                ck.ob("edge", len(es) == 1 and is_default(es[0][2]) and any(node_for(p, m.n, es[0][1], t) for t in want) and es[0][3].idx > adds[0].idx, m.C, w,
                      f"a package put together at run time is linked to {', '.join(pretty(e[1]) for e in es) or 'nothing'} ({p.cond_text(9)})")
            else:
                ck.ob("only", not es, m.C, w, f"a package is linked to a module that does not put it together ({p.cond_text(9)})")
    ck.ob("edge", "plain" in did, m.C, m.C, "no package put together at run time is ever linked")
    ck.instances("told", 4)
