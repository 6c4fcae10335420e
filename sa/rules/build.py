"""C05-C16, C27, C30, C31: how the graph is built."""
import ast

from ..engine import Abr
from ..rulekit import *  # noqa: F401,F403
from ..rulekit import C, FALSE, NONE, SELF, TRUE, Names, P, attr, attrs_ok, calls, cat, edges, graph_init, graph_method, has_parent, is_const, \
    is_default, is_parent_name, mentions, mutations, node_for, node_name, norm_work, pretty, q, rec_field, same, stack_of, sym, walk, ws_attr
from ..repo import AnalysisBroken
from .hooks import default_true
from .callbacks import call_rule, clear_rule, own_rule

INFO = ("sym", "import_info")


def A(b, n):
    return ("attr", b, n)


def ret_or_violation(ck, rule, p, cons, what):
    if p.kind == "raise":
        ck.ob(rule, False, cons, p.where(), f"{what} can raise {pretty(p.value)} ({p.cond_text()})")
        return False
    return True


# ---------------------------------------------------------------------------- imports
class ImportModel:
    """Paths of the processing of one import."""

    def __init__(self, ck):
        self.n = Names(ck.repo)
        self.fi = graph_method(ck.repo, "_process_import")
        a, b = [x for x in self.fi.params() if x != "self"][:2]
        self.imp, self.info = ("sym", a), ("sym", b)
        eng = ck.engine(opaque=self.n.opaque, types={self.info: ("ImportInfo",)})
        self.paths = ck.run(eng, self.fi, init=graph_init())
        self.C = self.n.pi
        self.level = A(self.info, "import_level")
        self.mod = A(self.info, "import_module")

    def is_absolute(self, p):
        return p.eq(self.level, C(0)) if p.eq(self.level, C(0)) is not None else (None if p.truthy(self.level) is None else not p.truthy(self.level))

    def loads(self, p):
        return calls(p, self.n.folm)


def rel_package(p, m):
    """(base term, components cut) when the path resolves against `name` minus trailing components."""
    for t in {x for e in p.events for v in (e.args.values() if isinstance(e.args, dict) else e.args) if v is not None for x in walk(v)}:
        if t and t[0] == "item" and t[2] == C(0) and t[1][0] == "m" and t[1][1] == "rsplit" and t[1][3][0] == C("."):
            return t
    return None


def C05(ck):
    R = ck.rule
    R("edge", "every path through import processing links the importer to the node of the imported name with that import's attributes")
    R("all", "every import reported for a node is scheduled, unconditionally and once")
    R("gather", "the imports found for a node are the ones scheduled for it")
    R("attrs", "edge attributes are the optional/global flags, from-list flag and alias given")
    m = ImportModel(ck)
    n = m.n
    for p in m.paths:
        if not ret_or_violation(ck, "edge", p, m.C, "processing an import"):
            continue
        w = p.where()
        es = edges(p)
        mine = [e for e in es if e[0] == m.imp]
        ck.ob("edge", len({e[:3] for e in mine}) == 1, m.C, w, f"an import yields {len(mine)} edges from the importer ({p.cond_text()})")
        for src, dst, a, ev in es:
            if src != m.imp:
                ck.ob("edge", False, m.C, ev.where, f"processing an import adds an edge {pretty(src)} -> {pretty(dst)}")
                continue
            inval = is_invalid(p, m, dst)
            why = attrs_ok(p, a, m.info, False, None if inval else A(m.mod, "asname"))
            ck.ob("edge", why is None, m.C, ev.where, why or "")
            ck.ob("edge", not ev.loops, m.C, ev.where, "the edge of an import is added a varying number of times")
            if inval:
                continue
            loaded = [e for e in m.loads(p) if e.ret == dst]
            if m.is_absolute(p) is True:
                ck.ob("edge", node_for(p, n, dst, m.mod), m.C, ev.where, f"an absolute import is linked to {pretty(dst)}, not to the node of the imported name")
            else:
                name = loaded[0].args.get("module_name") if loaded else None
                if name is None:
                    name = next((e.arg("node", 0) for e in p.evs("query", "find_node") if e.ret == dst), None)
                ck.ob("edge", name is not None and node_for(p, n, dst, name), m.C, ev.where, f"an import is linked to {pretty(dst)}, not to a node looked up by name")
    schedule_rule(ck, "all")
    gather_rule(ck, "gather")
    depinfo_rule(ck, "attrs")
    ck.instances("edge", 10)


def depinfo_rule(ck, rule):
    from . import scan
    R = ck.rule
    R("optional", "a report is optional exactly when one of its flags is set, global exactly when not in a function")
    saved, ck.rules["edge"] = ck.rules.get("edge"), ck.rules[rule]
    n0 = len(ck.violations)
    try:
        scan.optional_rule(ck)
        scan.edge_rule(ck)
    finally:
        for v in ck.violations[n0:]:
            if v["rule"] == "edge":
                v["rule"] = rule
        if saved is None:
            del ck.rules["edge"]
        else:
            ck.rules["edge"] = saved


def pil_paths(ck, n):
    fi = graph_method(ck.repo, "_process_import_list")
    ps = [x for x in fi.params() if x != "self"]
    node, imports = ("sym", ps[0]), ("sym", ps[1])
    eng = ck.engine(opaque={n.folm, n.pi, n.pnl})
    return fi, node, imports, ck.run(eng, fi, init=graph_init())


def schedule_rule(ck, rule):
    n = Names(ck.repo)
    fi, node, imports, paths = pil_paths(ck, n)
    cons = n.pil
    some = False
    for p in paths:
        if not ret_or_violation(ck, rule, p, cons, "scheduling imports"):
            continue
        w = p.where()
        st = stack_of(p)
        ck.ob(rule, st is not None and st and st[0].kind == "seg" and st[0].target == ("sym", "pending-work"), cons, w, "work that was already pending is lost or moved")
        pis = [x for x in st or () if x.target == n.pi]
        if p.empty_iter(imports):
            ck.ob(rule, not pis, cons, w, "import processing is scheduled for a node without imports")
            continue
        some = True
        ok = len(pis) == 1 and pis[0].kind == "call" and pis[0].args == (SELF, node, ("elem", imports, 0)) and imports in pis[0].loops and not cond_extra(pis[0].item)
        ck.ob(rule, ok, cons, w, f"not every reported import is scheduled once for its node: {pis} ({p.cond_text()})")
        left = [e for e in p.evs("loopend") if e.recv == imports and e.fn != "exhausted"]
        ck.ob(rule, not left, cons, w, "the imports after some import are skipped")
    ck.ob(rule, some, cons, f"{cons}", "no import is ever scheduled")


def cond_extra(item):
    return [c for c in item.conds if not (c[0] == "fact" and c[1][0] in ("nonempty",))]


class LoadModel:
    """Paths of the lookup of one name, load and implied actions looked through."""

    def __init__(self, ck, raises=False):
        self.n = n = Names(ck.repo)
        self.fi = graph_method(ck.repo, "_find_or_load_module")
        ps = [x for x in self.fi.params() if x != "self"] + [a.arg for a in self.fi.node.args.kwonlyargs]
        self.imp, self.name, self.link = ("sym", ps[0]), ("sym", ps[1]), ("sym", ps[2]) if len(ps) > 2 else TRUE
        kw = {}
        if raises:
            kw = dict(raise_only={"importlib.util.find_spec"},
                      raises={"importlib.util.find_spec": ("ValueError", "AttributeError", "ModuleNotFoundError", "ImportError", "SyntaxError", "Exception", "SystemExit")},
                      assert_raises=True)
        eng = ck.engine(opaque={n.pil, "node_for_spec", "split_package"}, types={self.name: ("str",), self.link: ("bool",)}, **kw)
        self.eng = eng
        self.paths = ck.run(eng, self.fi, init=graph_init(), label=n.folm + ("[faults]" if raises else ""))
        self.C = n.folm
        self.table = lazy_attr(ck.repo)
        self.hook = hook_attr(ck.repo)
        self.T = A(SELF, self.table)

    def existing(self, p):
        """The node found under the requested name at the start, if the path found one."""
        for e in p.events:
            if e.kind == "query" and e.fn == "find_node" and same(p, e.arg("node", 0), self.name):
                return e.ret if p.is_none(e.ret) is False else None
            if e.kind in ("call", "recurse", "graph", "dyn") and e.fn not in ("split_package", "str.lower"):
                return None
        return None

    def late_existing(self, p):
        for e in p.events:
            if e.kind == "query" and e.fn == "find_node" and same(p, e.arg("node", 0), self.name) and p.is_none(e.ret) is False:
                return e.ret
        return None

    def recs(self, p):
        return [e for e in p.events if e.kind in ("call", "recurse") and e.fn == self.n.folm]

    def parent_call(self, p):
        for e in self.recs(p):
            if is_parent_name(p, e.args.get("module_name"), self.name):
                return e
        return None

    def added(self, p):
        return [e for e in p.evs("graph", "add_node")]

    def pils(self, p):
        return [e for e in p.events if e.kind in ("call", "recurse") and e.fn == self.n.pil]

    def specs(self, p):
        return [e for e in p.events if e.kind == "call" and e.fn == "importlib.util.find_spec"]

    def nodes(self, p):
        return [e for e in p.events if e.kind == "call" and e.fn == "node_for_spec"]

    def located(self, p):
        """(node, imports, event) pairs returned by the classification of a spec."""
        return [(("item", e.ret, C(0)), ("item", e.ret, C(1)), e) for e in self.nodes(p)]

    def hooks(self, p):
        return [e for e in p.events if e.kind in ("graph", "dyn", "call") and (e.fn == self.hook or (e.kind == "dyn" and e.recv == A(SELF, self.hook)))]

    def self_rec(self, p):
        """A result obtained by asking again for the same name (recursion of an inner function)."""
        return [e for e in p.evs("recurse") if e.fn != self.n.folm and p.value == e.ret]

    def parent_state(self, p):
        """'none' | 'missing' | 'excluded' | 'ok' | None for the containing package."""
        e = self.parent_call(p)
        if e is None:
            return "none" if has_parent(p, self.name) is not True else None
        if p.isinst(e.ret, "MissingModule") is True:
            return "missing"
        if p.isinst(e.ret, "ExcludedModule") is True:
            return "excluded"
        return "ok"

    def in_table(self, p, name=None):
        name = name or self.name
        v = p.member(name, self.T)
        if v is not None:
            return v
        for k, val in p.st.facts.items():
            if k[0] == "in" and k[2] == self.T and same(p, k[1], name):
                return val
        return None


def lazy_attr(repo):
    """The attribute holding pending implied actions and excludes: the one add_excludes writes."""
    fi = repo.func("_modulegraph:ModuleGraph.add_excludes")
    if fi is None:
        raise AnalysisBroken("ModuleGraph.add_excludes not found")
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and "lazy" in x.attr:
            return x.attr
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and f"add_" not in x.attr:
            return x.attr
    return "_global_lazy_nodes"


def hook_attr(repo, cls="FirstNotNone", default="_missing_hook"):
    ci = repo.classes.get("ModuleGraph")
    fi = ci and ci.methods.get("__init__")
    if fi is not None:
        for x in ast.walk(fi.node):
            t = x.targets[0] if isinstance(x, ast.Assign) else x.target if isinstance(x, ast.AnnAssign) else None
            v = getattr(x, "value", None)
            if isinstance(t, ast.Attribute) and isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Subscript)):
                nm = v.func.id if isinstance(v.func, ast.Name) else getattr(v.func.value, "id", "")
                if nm == cls:
                    return t.attr
    return default


def gather_rule(ck, rule):
    """The imports that come with a located node (or script) are scheduled for that node."""
    m = LoadModel(ck)
    seen = 0
    for p in m.paths:
        if p.kind != "ret":
            continue
        for node, imports, ev in m.located(p):
            adds = [e for e in m.added(p) if e.arg("node", 0) == node]
            if not adds:
                continue
            seen += 1
            pl = [e for e in m.pils(p) if e.args.get("node") == node]
            ok = len(pl) == 1 and pl[0].args.get("imports") == imports and not pl[0].loops
            ck.ob(rule, ok, m.C, adds[0].where, f"the imports of a located node are not the ones scheduled for it ({p.cond_text()})")
    ck.ob(rule, seen > 0, m.C, m.C, "no located node is ever added")
    fi = graph_method(ck.repo, "_load_script")
    eng = ck.engine(opaque={m.n.pil, m.n.folm, "extract_ast_info"})
    for p in ck.run(eng, fi, init=graph_init()):
        if p.kind != "ret":
            continue
        pl = [e for e in p.events if e.kind == "call" and e.fn == m.n.pil]
        adds = p.evs("graph", "add_node")
        ok = len(pl) == 1 and len(adds) == 1 and pl[0].args.get("node") == adds[0].arg("node", 0) and pl[0].args.get("imports") is not None \
            and any(x and x[0] == "call" and x[1].split(".")[-1] == "extract_ast_info" for x in walk(pl[0].args["imports"]))
        ck.ob(rule, ok, "ModuleGraph._load_script", p.where(), "the imports found in a script are not the ones scheduled for it")


# ---------------------------------------------------------------------------- relative imports
KINDS = {"Script": None, "Package": -1, "FrozenPackage": -1, "NamespacePackage": -1, "SourceModule": 0, "BytecodeModule": 0, "ExtensionModule": 0}


def is_invalid(p, m, t):
    """Is t an invalid-relative-import node: created as one, or looked up under the dotted name?"""
    dots = cat([("rep", C("."), m.level), m.mod])
    return p.isinst(t, "InvalidRelativeImport") is True or any(e.ret == t and same(p, e.arg("node", 0), dots) for e in p.evs("query", "find_node"))


def kinds_of(p, t, repo):
    return [k for k in KINDS if k in repo.classes and p.isinst(t, k) is not False and exact_ok(p, t, k, repo)]


def exact_ok(p, t, k, repo):
    """Is an object of exactly class k consistent with the path's facts about t?"""
    S = p.cls(t)
    return S is None or any(c.rstrip("+") == k or (c.endswith("+") and k in repo.subclasses(c[:-1])) for c in S)


def num_ask(p, a, op, b):
    return p.ask(lambda s: p.eng.cmp(getattr(ast, op)(), a, b, s, None, None))


def pkg_base(m, p, name):
    """Split an absolute name built for a relative import into (base, with module?)."""
    parts = name[1] if name[0] == "cat" else (name,)
    if len(parts) >= 3 and parts[-1] == m.mod and parts[-2] == C("."):
        return cat(list(parts[:-2])), True
    if len(parts) >= 2 and parts[-1] == m.mod and parts[-2][0] == "c" and parts[-2][2].endswith("."):
        return cat(list(parts[:-2]) + [C(parts[-2][2][:-1])]), True
    return name, False


def cut(base, name):
    """Number of trailing dotted components `base` lacks compared with `name` (a term), or None."""
    if base == name:
        return C(0)
    if base[0] == "item" and base[2] == C(0) and base[1][0] == "m" and base[1][1] == "rsplit" and base[1][2] == name and len(base[1][3]) == 2 and base[1][3][0] == C("."):
        return base[1][3][1]
    return None


def C06(ck):
    R = ck.rule
    R("resolve", "a relative import of level n resolves against the name of the importer cut by n components (n-1 for packages), and only if that many exist")
    R("invalid", "otherwise one invalid-relative-import node named by dots and name is linked, and nothing is loaded")
    R("absolute", "an absolute import is never resolved relative to the importer")
    m = ImportModel(ck)
    n, repo = m.n, ck.repo
    nm = A(m.imp, "name")
    dots = cat([("rep", C("."), m.level), m.mod])
    seen = set()
    doubtful = []
    for p in m.paths:
        if p.kind == "raise":
            ck.ob("resolve", False, m.C, p.where(), f"processing an import can raise {pretty(p.value)}")
            continue
        w = p.where()
        loads = m.loads(p)
        inval = [e for e in edges(p) if is_invalid(p, m, e[1])]
        new = [e for e in p.evs("new", "InvalidRelativeImport")]
        if m.is_absolute(p) is True:
            ck.ob("absolute", not inval and not new and len(loads) == 1 and same(p, loads[0].args.get("module_name"), m.mod), m.C, w,
                  f"an absolute import is looked up as {pretty(loads[0].args.get('module_name')) if loads else 'nothing'}")
            continue
        if m.is_absolute(p) is None:
            ck.ob("absolute", False, m.C, w, "absolute and relative imports are not told apart")
            continue
        for k in kinds_of(p, m.imp, repo):
            seen.add((k, bool(loads)))
            if KINDS[k] is None:
                ck.ob("invalid", not loads, f"{m.C}:{k}", w, f"a relative import in a script is resolved as {pretty(loads[0].args.get('module_name')) if loads else ''}")
                continue
            K = lin_of(m.level, KINDS[k])
            if loads:
                base, has = pkg_base(m, p, loads[0].args.get("module_name"))
                c = cut(base, nm)
                ok = c is not None and (c == K or num_ask(p, c, "Eq", K) is True)
                if ok and c != C(0):
                    ln = ("call", "len", (("m", "rsplit", nm, (C("."), c)),), (), 0)
                    ok = num_ask(p, ln, "Gt", K) is True
                want_mod = p.truthy(m.mod)
                ok2 = has is want_mod or (want_mod is None and False)
                if ok and ok2:
                    ck.ob("resolve", True, f"{m.C}:{k}", w, "")
                else:
                    doubtful.append((p, k, f"level n of a {k} resolves against {pretty(base)}" + ("" if ok2 else ", module part wrong") + f" ({p.cond_text()})"))
            else:
                t = next((x for k2 in list(p.st.bounds) for c2 in k2 for x in [c2[0]] if x[0] == "call" and x[1] == "len" and x[2][0][0] == "m" and x[2][0][1] == "rsplit" and x[2][0][2] == nm), None)
                ok = t is not None and (t[2][0][3][1] == K or num_ask(p, t[2][0][3][1], "Eq", K) is True) and num_ask(p, t, "Gt", K) is False
                if any(v is True and kk[0] == "isinst" and kk[2] == "None" and cut(kk[1], nm) is not None for kk, v in p.st.facts.items()):
                    ok = True       # a part of a string is never None: the path is infeasible
                if ok:
                    ck.ob("invalid", True, f"{m.C}:{k}", w, "")
                else:
                    doubtful.append((p, k, f"whether level n leaves the top-level package of a {k} is decided differently ({p.cond_text()})"))
        if not loads:
            ck.ob("invalid", len({e[:3] for e in inval}) == 1 and len(edges(p)) == 1, m.C, w, "an invalid relative import is not linked exactly once")
            for src, dst, a, ev in inval:
                name = node_name(p, dst)
                q0 = [e for e in p.evs("query", "find_node") if e.ret == dst]
                if q0:
                    name = q0[0].arg("node", 0)
                ck.ob("invalid", same(p, name, dots), m.C, ev.where, f"the invalid import is named {pretty(name)}")
            for e in new:
                prev = [x for x in p.evs("query", "find_node") if same(p, x.arg("node", 0), dots) and p.is_none(x.ret) is True]
                adds = [x for x in p.evs("graph", "add_node") if x.arg("node", 0) == e.recv]
                pl = [x for x in calls(p, n.pil) if x.args.get("node") == e.recv]
                ck.ob("invalid", bool(prev) and len(adds) == 1, m.C, e.where, "a second node can be made for the same invalid import")
                ck.ob("invalid", len(pl) == 1 and empty(p, pl[0].args.get("imports")), m.C, e.where, "something is loaded for an invalid import, or it is never finalised")
            st = stack_of(p)
            ck.ob("invalid", st is not None and all(x.kind == "seg" for x in st), m.C, w, "work is scheduled for an invalid relative import")
    if doubtful:
        wrong = resolution_table(ck, m)
        for p, k, msg in doubtful:
            bad = wrong.get(k) or wrong.get("*")
            ck.ob("resolve", not bad, f"{m.C}:{k}", p.where(), f"{msg}; e.g. {bad}" if bad else msg)
        if not wrong:
            ck.notes.append("package computation has an unfamiliar form; decided by constant propagation over sample names and levels")
    ck.need(seen, "no relative import is processed")
    for k in KINDS:
        if k in repo.classes:
            ck.ob("invalid", (k, False) in seen, f"{m.C}:{k}", m.C, f"relative imports in a {k} are never rejected")
            if KINDS[k] is not None:
                ck.ob("resolve", (k, True) in seen, f"{m.C}:{k}", m.C, f"relative imports in a {k} are never resolved")
    ck.instances("resolve", 8)
    ck.instances("invalid", 8)


def lin_of(t, d):
    from ..terms import lin_add
    return lin_add(t, C(d)) if d else t


def empty(p, t):
    if t is None:
        return False
    if t in p.st.cont:
        return not p.st.cont[t]
    return t == ("tup", ()) or p.truthy(t) is False


def resolution_table(ck, m):
    """Constant propagation over sample importers; {kind: text of a wrong instance}."""
    wrong = {}
    for k, d in KINDS.items():
        if d is None or k not in ck.repo.classes:
            continue
        for depth in (1, 2, 3, 4):
            comps = ["p%d" % i for i in range(depth)]
            for level in (1, 2, 3, 4, 5):
                def init(eng, st, fr, k=k, comps=comps, level=level):
                    graph_init()(eng, st, fr)
                    st.types[m.imp] = frozenset([k])
                    st.heap[(m.imp, "name")] = C(".".join(comps))
                    st.heap[(m.info, "import_level")] = C(level)
                eng = ck.engine(opaque=m.n.opaque, types={m.info: ("ImportInfo",)}, unroll=12)
                try:
                    paths = [P(eng, x) for x in eng.run(m.fi, init=init)]
                except AnalysisBroken:
                    wrong["*"] = "package computation could not be analysed"
                    continue
                keep = len(comps) - (level + d)
                want = ".".join(comps[:keep]) if keep > 0 else None
                for p in paths:
                    ld = m.loads(p)
                    if p.kind == "raise":
                        got = "an exception"
                    elif not ld:
                        got = None
                    else:
                        base, has = pkg_base(m, p, ld[0].args.get("module_name"))
                        name = ld[0].args.get("module_name")
                        exp = [C(want or "")] if p.truthy(m.mod) is False else [C((want or "") + "."), m.mod]
                        got = want if want is not None and name == cat(exp) else pretty(name)
                    if got != want:
                        wrong.setdefault(k, f"level {level} in {k} {'.'.join(comps)} gives {got}, expected {want}")
    return wrong


# ---------------------------------------------------------------------------- from-lists
PKG = ("Package", "NamespacePackage")


class NameModel:
    """Paths of the processing of one from-list."""

    def __init__(self, ck):
        self.n = Names(ck.repo)
        self.fi = graph_method(ck.repo, "_process_namelist")
        ps = [x for x in self.fi.params() if x != "self"]
        self.imp, self.mod, self.info = (("sym", x) for x in ps[:3])
        node_types = tuple(sorted(c for c in ck.repo.subclasses("BaseNode") if c != "BaseNode"))
        eng = ck.engine(opaque=self.n.opaque, types={self.info: ("ImportInfo",), self.mod: node_types})
        self.paths = ck.run(eng, self.fi, init=graph_init())
        self.C = self.n.pnl
        self.names = A(self.info, "import_names")
        self.star = A(self.info, "star_import")

    def elem(self, p):
        """The generic name of the list on this path."""
        for e in p.events:
            for l in e.loops:
                if l == self.names or (l[0] in ("order_of",) and self.names in walk(l)):
                    return ("elem", l, 0) if l == self.names else ("elem", self.names, 0)
        return ("elem", self.names, 0)

    def iterated(self, p):
        return any(k[0] == "nonempty" and k[1] == self.names and v for k, v in p.st.facts.items())

    def no_names(self, p):
        return p.empty_iter(self.names) or p.truthy(self.names) is False

    def resolved(self, p):
        """Terms that stand for the real module behind an alias: reached by following actual_module."""
        out = []
        for e in p.evs("query", "find_node"):
            a = e.arg("node", 0)
            if a is not None and a[0] == "attr" and a[2] in ("actual_module",):
                out.append(e.ret)
        for k in p.st.types:
            if k[0] == "loopvar":
                out.append(k)
        return out

    def is_alias(self, p):
        return p.isinst(self.mod, "AliasNode")

    def effective(self, p):
        """Candidates for the module whose names are imported on this path."""
        a = self.is_alias(p)
        if a is False:
            return [self.mod]
        c = self.resolved(p)
        used = set()
        for e in p.events:
            vs = [e.recv] + (list(e.args.values()) if isinstance(e.args, dict) else list(e.args or ()))
            for v in vs:
                if v is not None:
                    used |= {x for x in walk(v) if x in c}
        return [x for x in c if x in used or True] or [self.mod]


def alias_cycle(p, m):
    """The path ended its walk along aliases because they refer to each other."""
    for k, v in p.st.facts.items():
        if k[0] == "in" and v and (k[2] in p.st.cont or k[2][0] == "prev" and k[2][1] in p.st.cont) and any(x and x[0] == "loopvar" for x in walk(k[1])):
            return True
    return False


def target_class(p, m, M):
    if p.isinst(M, *PKG) is True:
        return "pkg"
    if p.isinst(M, "Module") is True:
        return "mod"
    if p.isinst(M, "Package", "NamespacePackage", "Module") is False:
        return "other"
    if p.isinst(M, "Package", "NamespacePackage", "Module") is True:
        return "either"
    return None


def pick_target(p, m):
    """(module term, class) the names are looked up in."""
    if m.is_alias(p) is False:
        return m.mod, target_class(p, m, m.mod)
    best = None
    for t in m.effective(p):
        c = target_class(p, m, t)
        if c is None and p.isinst(t, "AliasNode") is True:
            continue
        if best is None or c in ("pkg", "mod", "either"):
            best = (t, c)
    return best or (m.mod, target_class(p, m, m.mod))


def C07(ck):
    R = ck.rule
    R("each", "every name of a from-list is handled, independently of the others")
    R("global", "a name that is an imported global of the module is linked to that import's target, any other bound name of a plain module to nothing")
    R("submodule", "an unbound name of a package is resolved as its submodule and linked from the importer and to the package")
    R("missing", "a merely bound name never gets a missing-module edge")
    R("attrs", "from-list edges carry the statement's flags, the from-list mark and the name's own alias")
    R("moved", "a missing name of a six.moves package that stands for a module leads to that module, other missing names are treated as in any package")
    R("star", "a star import binds the globals of the imported module in the importer")
    m = NameModel(ck)
    namelist_rules(ck, m, m.paths)
    lm = LoadModel(ck)
    for p in lm.paths:
        if p.kind == "ret" and p.truthy(lm.link) is False:
            unlinked_rule(ck, "missing", lm, p)
    star_seen(ck, m)
    depinfo_rule(ck, "attrs")
    ck.instances("each", 10)
    ck.instances("global", 4)
    ck.instances("submodule", 4)


def namelist_rules(ck, m, paths):
    n = m.n
    for p in paths:
        if not ret_or_violation(ck, "each", p, m.C, "processing a from-list"):
            continue
        w = p.where()
        es = edges(p)
        M, cls = pick_target(p, m)
        if p.truthy(m.star) is True:
            ck.ob("each", not es and not calls(p, n.folm), m.C, w, "a star import adds edges")
            star_rule(ck, p, m, M, cls, w)
            continue
        nm = m.elem(p)
        if m.no_names(p):
            ck.ob("each", not es, m.C, w, "edges are added for an empty from-list")
            continue
        if not m.iterated(p):
            a = m.is_alias(p)
            if cls == "other" or (a is not False and alias_cycle(p, m)):
                ck.ob("each", through(p, m, M), m.C, w, f"names imported through an alias of an alias are dropped ({p.cond_text()})")
                continue
            ck.ob("each", False, m.C, w, f"the names of a from-list are not looked at ({p.cond_text()})")
            continue
        left = [e for e in p.evs("loopend") if e.recv == m.names and e.fn != "exhausted"]
        ck.ob("each", not left, m.C, w, f"the names after some name are not handled ({p.cond_text()})")
        if cls is None or (cls == "either" and match_state(p, M, nm) in (None, False)):
            ck.ob("each", False, m.C, w, f"names are handled without telling packages from modules ({p.cond_text()})")
            continue
        if cls == "other":
            ck.ob("each", through(p, m, M), m.C, w, f"names imported through an alias of an alias are dropped ({p.cond_text()})")
            ck.ob("missing", not es, m.C, w, "names imported from something that is no module or package add edges")
            continue
        name_rule(ck, p, m, n, M, cls, nm, es, w)


def through(p, m, M):
    """Aliases were followed to the end: the module found is no alias itself, or they refer to each other."""
    return m.is_alias(p) is False or alias_cycle(p, m) or p.isinst(M, "AliasNode") is False


def star_seen(ck, m):
    ok = any(p.truthy(m.star) is True and any(e.kind == "mut" for e in p.events) for p in m.paths)
    ck.ob("star", ok, m.C, m.C, "a star import never binds anything in the importer")


def star_rule(ck, p, m, M, cls, w):
    if m.is_alias(p) is not False and M == m.mod:
        ck.ob("star", alias_cycle(p, m), m.C, w, f"a star import through an alias does not reach the real module ({p.cond_text()})")
        return
    if p.isinst(M, "Package", "Module") is False and not through(p, m, M):
        ck.ob("star", False, m.C, w, f"a star import through an alias of an alias is dropped ({p.cond_text()})")
        return
    if p.isinst(M, "Package", "Module") is False or (m.is_alias(p) is True and alias_cycle(p, m) and p.isinst(M, "AliasNode") is not False):
        return
    W = A(m.imp, "globals_written")
    src = A(M, "globals_written")
    ok = any(e.kind == "mut" and e.recv == W and any(src == a or src in walk(a) for a in (e.args.values() if isinstance(e.args, dict) else e.args)) for e in p.events) \
        or any(e.kind == "setattr" and e.recv == m.imp and src in walk(e.args[-1]) for e in p.events)
    ck.ob("star", ok, m.C, w, f"a star import does not bind the globals of {pretty(M)} ({p.cond_text()})")


def bound_state(p, M, nm):
    return p.member(nm, A(M, "globals_written"))


def match_state(p, M, nm):
    """Edge of M's outgoing edges that binds nm on this path; False: none does; None: not (fully) looked at."""
    asked = set()
    for k, v in p.st.facts.items():
        if k[0] == "eq" and len(k) == 3:
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if b == nm and a[0] == "attr" and a[2] in ("imported_as", "identifier", "name") and any(is_out(x, M) for x in walk(a)):
                    if v:
                        return ("elem", next(x for x in walk(a) if is_out(x, M)), 0)
                    asked.add("as" if a[2] == "imported_as" else "id")
        if k[0] == "in" and is_outkey(k, M, nm):
            if v:
                return ("elem", next(x for x in walk(k[2]) if is_out(x, M)), 0)
            asked.add("as")
    for k, v in p.st.facts.items():
        if k[0] == "nonempty" and not v and is_out(k[1], M):
            return False
        if k[0] == "nonempty" and not v and any(is_out(x, M) for x in walk(k[1])):
            asked.add("as")
    return False if asked == {"as", "id"} else None


def is_out(t, M):
    return t and t[0] == "call" and t[1] in ("outgoing", ".outgoing") and M in t[2]


def partial(p, t, M):
    """Is t a part of the outgoing edges only?"""
    vs = [t] + ([i.val for i in p.st.cont[t]] if t in p.st.cont else [])
    return any(x and (x[0] == "slice" or x[0] == "call" and x[1] in ("itertools.islice", "itertools.takewhile")) and any(is_out(y, M) for y in walk(x)) for v in vs for x in walk(v))


def is_outkey(k, M, nm):
    return k[1] == nm and any(is_out(x, M) for x in walk(k[2]))


def name_rule(ck, p, m, n, M, cls, nm, es, w):
    bound = bound_state(p, M, nm)
    mt = match_state(p, M, nm) if bound is not False else False
    mine = [e for e in es if e[0] == m.imp]
    loads = calls(p, n.folm)
    subs = [e for e in loads if e.args.get("module_name") is not None and nm in walk(e.args["module_name"]) and e.args["module_name"][0] == "cat"]
    for src, dst, a, ev in es:
        if src == m.imp and not is_default(a):
            why = attrs_ok(p, a, m.info, True, A(nm, "asname"))
            ck.ob("attrs", why is None, m.C, ev.where, why or "")
    if mt in (None, False) and bound is not False:
        for e in p.evs("loopend"):
            if any(is_out(x, M) for x in walk(e.recv)) or e.recv in p.st.cont and any(is_out(x, M) for i in p.st.cont[e.recv] for x in walk(i.val)):
                ck.ob("global", e.fn == "exhausted" and not partial(p, e.recv, M), m.C, e.where, f"only some of the module's imports are looked at for a bound name ({p.cond_text()})")
    if mt not in (None, False):
        tgt = ("item", mt, C(1))
        good = [e for e in mine if e[1] == tgt and not is_default(e[2])]
        ck.ob("global", len({e[:3] for e in good}) == 1 and len(mine) == len(good), m.C, w,
              f"a name bound by an import of the module is linked to {', '.join(pretty(e[1]) for e in mine) or 'nothing'}, not to that import's target ({p.cond_text()})")
        ck.ob("global", not subs, m.C, w, "a name bound by an import of the module is also looked up as submodule")
        return
    if cls == "mod":
        ck.ob("global", not es and not subs, m.C, w, f"a name that is no imported global of a plain module adds an edge ({p.cond_text()})")
        if bound is None:
            ck.ob("global", False, m.C, w, f"whether the module binds the name is not looked at ({p.cond_text()})")
        elif bound is True:
            ck.ob("global", mt is False, m.C, w, f"whether a bound name is an imported module is not looked at ({p.cond_text()})")
        return
    if bound is True:
        ck.ob("global", mt is False, m.C, w, f"whether a bound name is an imported module is not looked at ({p.cond_text()})")
    # package: the submodule of that name
    want = [cat([A(M, "name"), C("."), nm]), cat([A(M, "identifier"), C("."), nm])]
    good = [e for e in subs if any(same(p, e.args["module_name"], x) for x in want)]
    ck.ob("submodule", len(good) == 1 and len(subs) == 1, m.C, w,
          f"name of a package is looked up as {', '.join(pretty(e.args['module_name']) for e in subs) or 'nothing'} ({p.cond_text()})")
    if len(good) != 1:
        return
    S = good[0].ret
    ck.ob("submodule", good[0].args.get("importing_module") == m.imp, m.C, good[0].where, "the submodule is looked up on behalf of another node")
    missing = p.isinst(S, "MissingModule")
    if bound is not False:
        ck.ob("missing", p.truthy(good[0].args.get("link_missing_to_parent") or TRUE) is False, m.C, good[0].where,
              "looking up a bound name may link a missing module to the package")
    if missing is not False and p.isinst(M, "Package") is not False and six_name(ck, m, p, w, M, nm, es, mine, bound):
        return
    if missing is not False and bound is True and p.isinst(M, "Package") is True:
        ck.ob("missing", missing is True and not es, m.C, w, f"a name that a package merely binds gets an edge ({p.cond_text()})")
        return
    if missing is not False and bound is None and p.isinst(M, "Package") is True:
        ck.ob("missing", False, m.C, w, f"whether the package binds a missing name is not looked at ({p.cond_text()})")
        return
    up = [e for e in es if e[0] == S and e[1] == M]
    ln = [e for e in mine if e[1] == S and not is_default(e[2])]
    ck.ob("submodule", len({e[:3] for e in ln}) == 1 and len(mine) == len(ln), m.C, w, f"the importer is not linked to the node of the imported name ({p.cond_text()})")
    ck.ob("submodule", len(up) >= 1, m.C, w, f"the node of the imported name is not linked to its package ({p.cond_text()})")
    rest = [e for e in es if e not in up and e not in ln]
    ck.ob("submodule", not rest, m.C, w, "other edges are added for an imported name: " + ", ".join(f"{pretty(e[0])} -> {pretty(e[1])}" for e in rest))


def six_package(p, M):
    """Is M the package of a six project's moved names on this path? None when that is not looked at."""
    for t in (A(A(M, "init_module"), "name"), A(A(M, "init_module"), "identifier")):
        d = p.st.dom.get(t)
        if d is not None:
            return d[0] == "in"
        for k, b in p.st.facts.items():
            if k[0] == "eq" and t in k[1:] and any(is_const(x) or x[0] == "glob" for x in k[1:]):
                return b
    return None


def moved(p, nm):
    """(is nm the name of something moved, terms for the module it stands for)"""
    for k, b in p.st.facts.items():
        if k[0] == "in" and k[1] == nm and k[2][0] == "glob":
            return b, [("item", k[2], nm)]
    gets = {t for k in list(p.st.facts) + list(p.st.types) + list(p.st.dom) for t in walk(k) if is_get(t, nm)}
    for t in gets:
        n = p.is_none(t)
        if n is None and p.truthy(t) is not None:
            n = not p.truthy(t)
        if n is not None:
            return not n, [t]
    return None, []


def is_get(t, nm):
    return len(t) > 3 and (t[0] == "call" and t[1] == ".get" and len(t[2]) > 1 and t[2][0][0] == "glob" and t[2][1] == nm or t[0] == "m" and t[1] == "get" and t[2][0] == "glob" and t[3][:1] == (nm,))


def six_name(ck, m, p, w, M, nm, es, mine, bound):
    """A name of six.moves that is not found there: what it stands for in the standard library is linked. Returns
    True when the path is such a name."""
    six, (inside, targets) = six_package(p, M), moved(p, nm)
    if six is False or inside is False:
        return False
    if bound is True:  # no name is both bound by six.moves and moved
        return six is True and inside is True
    if not ck.ob("moved", six is True and inside is True, m.C, w, f"whether a missing name of a package stands for a moved module is not looked at ({p.cond_text()})"):
        return True
    loads = [e for e in calls(p, m.n.folm) if e.args.get("module_name") in targets]
    R = loads[-1].ret if loads else None
    ck.ob("moved", len(loads) == 1 and loads[0].args.get("importing_module") == m.imp, m.C, w, f"the module that a moved name stands for is not looked up ({p.cond_text()})")
    ck.ob("moved", bool(loads) and len(mine) == 1 and mine[0][1] == R, m.C, w, f"the importer is not linked to the module that a moved name stands for ({p.cond_text()})")
    ck.ob("moved", es == mine, m.C, w, f"other edges are added for a moved name ({p.cond_text()})")
    return True


# ---------------------------------------------------------------------------- lookup of one name
def idx(p, e):
    return p.events.index(e)


def load_effects(m, p):
    """Events of a lookup that do something: load, ask hooks, change the graph or the implied table."""
    out = []
    for e in p.events:
        if e.kind == "graph" or (e.kind in ("call", "recurse") and e.fn in (m.n.folm, m.n.pil, "importlib.util.find_spec", "node_for_spec")) \
                or e.kind == "recurse" or (e.kind == "dyn") or (e.kind in ("ddel", "dset") and e.recv == m.T):
            out.append(e)
    return out


def quiet_kind(p, t):
    """Is t a missing or excluded module on this path (by class)?"""
    return p.isinst(t, "MissingModule") is True or p.isinst(t, "ExcludedModule") is True


def missing_new(p):
    return p.evs("new", "MissingModule")


def hook_answer(m, p):
    """The hook's answer when the path found one, else None."""
    h = m.hooks(p)
    return h[0].ret if h and p.is_none(h[0].ret) is False else None


def kind_of_result(m, p):
    """How the path answered: existing, found, alias, virtual, excluded, missing, hook, again, implied."""
    v = p.value
    if any(e.kind == "query" and e.fn == "find_node" and e.ret == v for e in p.events):
        return "existing"
    for x, _, ev in m.located(p):
        if v == x:
            return "found"
    for k, c in (("alias", "AliasNode"), ("virtual", "VirtualNode"), ("excluded", "ExcludedModule"), ("missing", "MissingModule")):
        if any(e.recv == v for e in p.evs("new", c)):
            return k
    if any(e.ret == v for e in m.hooks(p)):
        return "hook"
    for e in p.evs("recurse"):
        if e.ret == v:
            return "again" if e.fn != m.n.folm else "implied"
    return None


def looked_up_first(ck, rule, m, p):
    """Whatever the lookup does happens after the graph was asked for the name."""
    q0 = next((e for e in p.events if e.kind == "query" and e.fn == "find_node" and same(p, e.arg("node", 0), m.name)), None)
    eff = load_effects(m, p)
    ok = q0 is not None and (not eff or idx(p, q0) < idx(p, eff[0]))
    return ck.ob(rule, ok, m.C, p.where(), f"a name is resolved without looking it up in the graph first ({p.cond_text()})")


def C08(ck):
    R = ck.rule
    R("parent", "before anything is done for a dotted name, its containing package is resolved")
    R("split", "the containing package of a name is what stands before its last dot")
    R("link", "the node of a dotted name gets an edge to the node of its containing package")
    R("missing", "nothing is loaded below a missing package, the name becomes missing too")
    m = LoadModel(ck)
    seen = set()
    for p in m.paths:
        if not ret_or_violation(ck, "parent", p, m.C, "resolving a name") or m.existing(p) is not None:
            continue
        w = p.where()
        hp = has_parent(p, m.name)
        eff = load_effects(m, p)
        if hp is None:
            ck.ob("parent", not eff, m.C, w, f"a name is resolved without looking at its containing package ({p.cond_text()})")
            continue
        pc = m.parent_call(p)
        if hp is False:
            ck.ob("parent", pc is None, m.C, w, "a containing package is resolved for a top-level name")
            continue
        lookup = [e for e in p.evs("query", "find_node") if is_parent_name(p, e.arg("node", 0), m.name) and p.is_none(e.ret) is False]
        P0 = pc.ret if pc is not None else lookup[0].ret if lookup else None
        first = pc or (lookup[0] if lookup else None)
        ck.ob("parent", first is not None and (not eff or eff[0] is first or idx(p, first) < idx(p, eff[0])), m.C, w,
              f"a dotted name is resolved before its containing package ({p.cond_text()})")
        if first is None:
            continue
        kind = kind_of_result(m, p)
        state = "missing" if p.isinst(P0, "MissingModule") is True else "excluded" if p.isinst(P0, "ExcludedModule") is True else "ok"
        seen.add((state, kind))
        if state == "missing":
            ck.ob("missing", kind in ("missing", "hook"), m.C, w, f"a name below a missing package gives {kind or pretty(p.value)} ({p.cond_text()})")
            ck.ob("missing", not m.specs(p) and not m.nodes(p), m.C, w, "a name below a missing package is located")
        elif p.isinst(P0, "MissingModule") is None and (m.specs(p) or m.nodes(p)):
            ck.ob("missing", False, m.C, w, f"a name is located without asking whether its package is missing ({p.cond_text()})")
        mine = [e for e in edges(p) if same(p, e[0], p.value) and same(p, e[1], P0)]
        if state == "excluded" or quiet_kind(p, p.value) and not (p.isinst(p.value, "MissingModule") is True and p.truthy(m.link) is not False):
            continue
        ck.ob("link", bool(mine), m.C, w, f"the node of a dotted name is not linked to its package ({p.cond_text()})")
    for p in m.paths:
        if p.kind == "ret" and p.truthy(m.link) is False:
            unlinked_rule(ck, "link", m, p)
    if m.link != TRUE:
        fi = graph_method(ck.repo, m.n.folm.split(".")[-1])
        left = [(g, c) for g in ck.repo.modules.values() for c in ast.walk(g.tree)
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == fi.name
                and len(c.args) < 3 and not any(k.arg in (m.link[1], None) for k in c.keywords)]
        if left:
            default_true(ck, "link", fi, m.link[1])
    real_parent_rule(ck, "link", m)
    split_rule(ck, "split")
    ck.ob("missing", any(s == "missing" for s, _ in seen), m.C, m.C, "missing packages are not recognised")
    ck.instances("parent", 20)
    ck.instances("link", 10)


def unlinked_rule(ck, rule, m, p):
    """A missing node looked up for a merely bound name is not linked to the package."""
    pc = m.parent_call(p)
    if pc is None or p.isinst(p.value, "MissingModule") is not True:
        return
    ck.ob(rule, not [e for e in edges(p) if same(p, e[0], p.value) and same(p, e[1], pc.ret)], m.C, p.where(),
          "a missing name that was looked up without asking for a link is linked to its package")


def real_parent_rule(ck, rule, m):
    """The real module behind an alias is linked to its own package."""
    for p in m.paths:
        if p.kind != "ret":
            continue
        for X, _, ev in m.located(p):
            if same(p, node_name(p, X), m.name) or p.eq(node_name(p, X), m.name) is not False:
                continue
            adds = [e for e in m.added(p) if e.arg("node", 0) == X]
            if not adds:
                continue
            hp = has_parent(p, node_name(p, X))
            pcs = [e for e in m.recs(p) if is_parent_name(p, e.args.get("module_name"), node_name(p, X))]
            if hp is False:
                continue
            ok = hp is True and any(same(p, s, X) and any(same(p, d, e.ret) for e in pcs) for s, d, _, _ in edges(p))
            ck.ob(rule, ok, m.C, adds[0].where, f"the real module behind an alias is not linked to its package ({p.cond_text()})")


def split_rule(ck, rule):
    fi = ck.repo.func("_utilities:split_package")
    if fi is None:
        return
    nm = ("sym", fi.params()[0])
    samples = {"a": None, "a.b": "a", "a.b.c": "a.b", "a.bb.c.d": "a.bb.c"}
    wrong = None
    known = True
    eng = ck.engine(types={nm: ("str",)})
    for p in ck.run(eng, fi):
        if p.kind != "ret":
            continue
        a = proj(p, p.value, [0])
        hp = None
        for k, v in list(p.st.facts.items()):
            for x in walk(k):
                if x and x[0] == "item" and x[2] == C(0) and x[1][0] == "m" and x[1][1] == "rpartition" and x[1][3] == (C("."),) and is_lstrip(x[1][2], nm):
                    t = p.truthy(x)
                    hp = t if t is not None else hp
        if a == NONE and hp is False:
            continue
        if a is not None and a[0] == "item" and a[2] == C(0) and a[1][0] == "m" and a[1][1] == "rpartition" and is_lstrip(a[1][2], nm) and hp is True:
            continue
        if a is not None and a[0] == "cat" and a[1][0][0] in ("rep",):
            continue        # relative name: dots kept
        known = False
    if not known:
        for s, want in samples.items():
            eng = ck.engine(unroll=12)
            for p in [P(eng, x) for x in eng.run(fi, args={fi.params()[0]: C(s)})]:
                a = proj(p, p.value, [0]) if p.kind == "ret" else None
                if p.kind != "ret" or a != C(want):
                    wrong = f"the package of {s} is {pretty(a) if a else 'an exception'}"
    ck.ob(rule, wrong is None, "split_package", f"{fi.module.path}:{fi.node.lineno}", wrong or "")
    if not known and wrong is None:
        ck.notes.append("split_package has an unfamiliar form; decided by constant propagation over sample names")


def is_lstrip(t, nm):
    return t == nm or (t[0] == "m" and t[1] == "lstrip" and t[2] == nm)


# ---------------------------------------------------------------------------- one node per name
def may_add(p, n, e):
    """Can this event put nodes into the graph that this path cannot see?"""
    if e.kind in ("call", "recurse"):
        return e.fn == n.folm or (e.kind == "recurse") or (isinstance(e.fn, str) and e.fn.startswith("ModuleGraph.") and e.fn not in (n.pil,) and isinstance(e.args, dict))
    return e.kind == "dyn"


def fresh_rule(ck, rule, p, n, cons, exempt=lambda e: False):
    """Every node is added under a name the graph was just found not to hold."""
    for i, e in enumerate(p.events):
        if e.kind != "graph" or e.fn != "add_node":
            continue
        X = e.arg("node", 0)
        nm = node_name(p, X)
        qs = [j for j, x in enumerate(p.events[:i]) if x.kind == "query" and x.fn == "find_node"
              and (same(p, x.arg("node", 0), nm) or same(p, x.arg("node", 0), X) or x.arg("node", 0) == ("attr", X, "identifier")) and p.is_none(x.ret) is True]
        bad = None
        if not qs:
            bad = f"{pretty(X)} is added under {pretty(nm)} without checking that the name is unused"
        else:
            mid = [x for x in p.events[qs[-1]:i] if may_add(p, n, x) and not exempt(x)]
            if mid:
                bad = f"{pretty(X)} is added under {pretty(nm)} after {mid[-1].fn} at {mid[-1].where} may have added it"
            dup = [x for x in p.events[qs[-1]:i] if x.kind == "graph" and x.fn == "add_node" and p.eq(node_name(p, x.arg("node", 0)), nm) is True]
            if dup:
                bad = f"two nodes are added under {pretty(nm)}"
            if [l for l in e.loops if l not in p.events[qs[-1]].loops]:
                bad = f"{pretty(X)} is added in a loop after one check"
        ck.ob(rule, bad is None, cons, e.where, (bad or "") + f" ({p.cond_text()})")


def once_rule(ck, rule, p, n, cons, modules_only=True):
    """Every added node is scheduled for import processing exactly once."""
    for i, e in enumerate(p.events):
        if e.kind != "graph" or e.fn != "add_node":
            continue
        X = e.arg("node", 0)
        pl = [(j, x) for j, x in enumerate(p.events) if x.kind in ("call", "recurse") and x.fn == n.pil and same(p, x.args.get("node"), X)]
        ok = len(pl) == 1 and pl[0][0] > i and pl[0][1].loops == e.loops
        ck.ob(rule, ok, cons, e.where, f"{pretty(X)} is scheduled for import processing {len(pl)} times after being added ({p.cond_text()})"
              if not (len(pl) == 1 and pl[0][0] < i) else f"{pretty(X)} is scheduled before being added")


def load_exempt(m, p):
    pc = m.parent_call(p)
    hs = m.hooks(p)

    def ex(e):
        return (e is pc and quiet_kind(p, pc.ret)) or e in hs
    return ex


def C09(ck):
    R = ck.rule
    R("existing", "a name already in the graph is answered with its node and nothing else happens")
    R("fresh", "a node is only added under a name just found unused")
    R("once", "each added module or script node is scheduled for import processing exactly once")
    m = LoadModel(ck)
    n = m.n
    for p in m.paths:
        if not ret_or_violation(ck, "existing", p, m.C, "resolving a name"):
            continue
        looked_up_first(ck, "existing", m, p)
        ex = m.existing(p)
        if ex is not None:
            eff = load_effects(m, p)
            ck.ob("existing", p.value == ex and not eff, m.C, p.where(), f"a name already in the graph {'causes ' + eff[0].fn if eff else 'is answered with ' + pretty(p.value)}")
            continue
        fresh_rule(ck, "fresh", p, n, m.C, load_exempt(m, p))
        once_rule(ck, "once", p, n, m.C)
    ck.ob("existing", any(m.existing(p) is not None for p in m.paths), m.C, m.C, "names already in the graph are not recognised")
    for name, op in (("_process_import", set()), ("add_dependencies_for_source", {"extract_ast_info", "ModuleGraph.add_module"}), ("add_script", {"extract_ast_info"}),
                     ("add_distribution", {"distribution_named"}), ("add_module", set()), ("import_module", set())):
        fi = graph_method(ck.repo, name)
        rs = drain_name(ck.repo)
        eng = ck.engine(opaque=n.opaque | op | {rs} | n.loaders)
        for p in ck.run(eng, fi, init=graph_init()):
            cons = f"ModuleGraph.{fi.name}"
            fresh_rule(ck, "fresh", p, n, cons)
            for e in calls(p, *n.loaders):
                nm = next((e.args[a] for a in e.args if "name" in a), None)
                asked = [x for x in p.evs("query", "find_node") if idx(p, x) < idx(p, e) and same(p, x.arg("node", 0), nm) and p.is_none(x.ret) is True]
                ck.ob("existing", asked and not [x for x in p.events[idx(p, asked[-1]):idx(p, e)] if may_add(p, n, x)], cons, e.where, f"{pretty(nm)} is loaded without asking the graph for it first ({p.cond_text()})")
            if p.kind == "ret" and name != "add_distribution":
                once_rule(ck, "once", p, n, cons)
            if name in ("add_module", "import_module"):
                known_rule(ck, "existing", p, n, cons, fi)
    ck.instances("fresh", 20)
    ck.instances("once", 20)


def known_rule(ck, rule, p, n, cons, fi):
    """The APIs answer a known name with its node."""
    name = ("sym", [x for x in fi.params() if x != "self"][-1])
    for e in p.evs("query", "find_node"):
        if same(p, e.arg("node", 0), name) and p.is_none(e.ret) is False and p.kind == "ret":
            ck.ob(rule, same(p, p.value, e.ret) and not calls(p, n.folm) and not p.evs("graph", "add_node"), cons, p.where(), "a known name is resolved again")


def drain_name(repo):
    """The method that drains the pending work."""
    ci = repo.classes.get("ModuleGraph")
    if "_run_stack" in ci.methods:
        return "ModuleGraph._run_stack"
    wa = ws_attr(repo)
    for mt in ci.methods.values():
        for x in ast.walk(mt.node):
            if isinstance(x, ast.While):
                for c in ast.walk(x):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("pop", "popleft") and isinstance(c.func.value, ast.Attribute) and c.func.value.attr == wa:
                        return f"ModuleGraph.{mt.name}"
    raise AnalysisBroken("no method drains the pending work")


# ---------------------------------------------------------------------------- missing names
def parent_spec_exc(p):
    """Does this path end by an exception of locating the (already located) parent package again?"""
    v = p.value
    if v[0] != "exc" or len(v) < 3 or not isinstance(v[2], tuple):
        return False
    fn, i = v[2]
    if fn != "importlib.util.find_spec" or not isinstance(i, int) or i >= len(p.events):
        return False
    a = p.events[i].arg("name", 0)
    return a is not None and a[0] == "item" and a[1][0] == "m" and a[1][1] in ("rpartition", "rsplit")


def failed_lookup(p):
    """Did locating a name fail with an exception before?"""
    for e in p.evs("handler"):
        x = e.args[0]
        if x[0] == "exc" and len(x) > 2 and isinstance(x[2], tuple) and x[2][0] == "importlib.util.find_spec":
            return True
    return False


def C10(ck):
    R = ck.rule
    R("noescape", "no failure to locate a name leaves the lookup as an exception")
    R("asked", "a missing name is put to the hooks once, with the graph, the importer and the name, before it becomes missing")
    R("answer", "an answer of the hooks is the result, otherwise a new missing module of that name")
    R("complete", "every lookup ends in a known, located, implied, excluded or missing node")
    R("hooks", "the first non-None answer of the most recently added hook wins")
    R("justified", "a name is only given up when locating it, also with a stand-in for a parent that cannot be imported, gave nothing")
    R("standin", "locating is only tried again after a stand-in with the parent's own search locations was put in place of a parent not imported")
    m = LoadModel(ck, raises=True)
    table = 0
    for p in m.paths:
        w = p.where()
        if p.kind == "raise":
            if parent_spec_exc(p) or p.value[1] == "AssertionError" and (m.nodes(p) or not failed_lookup(p)):
                continue
            ck.ob("noescape", False, m.C, w, f"resolving a name can raise {pretty(p.value)} ({p.cond_text()})")
            continue
        ck.ob("noescape", True, m.C, w, "")
        hs = m.hooks(p)
        ck.ob("asked", len(hs) <= 1 and not any(h.loops for h in hs), m.C, w, f"the hooks are asked {len(hs)} times for one name")
        for h in hs:
            a = tuple(h.args.values()) if isinstance(h.args, dict) else tuple(h.args)
            ck.ob("asked", len(a) == 3 and a[:2] == (SELF, m.imp) and same(p, a[2], m.name), m.C, h.where, f"the hooks are called with ({', '.join(pretty(x) for x in a)})")
        for e in p.events:
            nm = e.arg("module_name", 1) if e.kind in ("call", "recurse") and e.fn == m.n.folm else None
            if nm is not None and m.name in walk(nm) and not any(x == m.T or x[:2] == ("call", "node_for_spec") for x in walk(nm)):
                ck.ob("asked", e.arg("importing_module", 0) == m.imp, m.C, e.where, f"{pretty(nm)} is looked up without its importer, which the hooks are asked with")
        kind = kind_of_result(m, p)
        ck.ob("complete", kind is not None, m.C, w, f"a lookup ends with {pretty(p.value)} ({p.cond_text()})")
        if hs and p.is_none(hs[0].ret) is not True:
            ck.ob("answer", p.value == hs[0].ret and p.is_none(hs[0].ret) is False, m.C, w, f"an answer of the hooks is not used as it is ({p.cond_text()})")
            ck.ob("answer", not missing_new(p) and not m.added(p), m.C, w, "another node is added besides the hook's answer")
            continue
        if failed_lookup(p):
            standin(ck, m, p, kind)
        new = missing_new(p)
        if new or hs:
            ck.ob("justified", given_up(m, p), m.C, (new or hs)[0].where, f"a name is given up that could still be located ({p.cond_text()})")
        if new:
            table += 1
            ck.ob("asked", len(hs) == 1 and idx(p, hs[0]) < idx(p, new[0]), m.C, new[0].where, f"a missing module is made without asking the hooks ({p.cond_text()})")
            ck.ob("answer", len(new) == 1 and same(p, node_name(p, new[0].recv), m.name), m.C, new[0].where, f"the missing module is named {pretty(node_name(p, new[0].recv))}")
            ck.ob("answer", p.value == new[0].recv and any(e.arg("node", 0) == new[0].recv for e in m.added(p)), m.C, new[0].where, "the missing module is not added or not the result")
        elif hs:
            ck.ob("answer", False, m.C, w, f"nobody knows the name, yet the result is {pretty(p.value)} ({p.cond_text()})")
        elif kind == "found":
            ck.ob("complete", bool(m.nodes(p)), m.C, w, "")
        for X, _, ev in m.located(p):
            if located_missing(ck.repo) and any(e.arg("node", 0) == X for e in m.added(p)):
                ck.ob("asked", p.isinst(X, "MissingModule") is False, m.C, ev.where, f"what stands in for a module that could not be located is added without asking the hooks ({p.cond_text()})")
    ck.ob("asked", table > 0, m.C, m.C, "no missing module is ever made")
    located_rule(ck, "noescape")
    first_rule(ck, "hooks")
    register_rule(ck, "hooks", "add_missing_hook", m.hook)
    ck.instances("noescape", 50)
    ck.instances("standin", 1)
    ck.assumptions.append("locating the parent package again, after it was located once, does not raise; assert statements hold unless they follow a failed attempt to locate a name")


def standin(ck, m, p, kind):
    """Is what a second attempt to locate a name rests on in place?"""
    first = [e for e in m.specs(p) if is_parent_name(p, e.arg("name", 0), m.name)]
    later = [e for e in p.evs("recurse") if e.ret == p.value] if kind == "again" else [e for e in m.specs(p) if first and idx(p, e) > idx(p, first[0]) and same(p, e.arg("name", 0), m.name)]
    for r in later:
        sets = [e for e in p.evs("dset") if e.recv == ("ext", "sys.modules") and idx(p, e) < idx(p, r) and is_parent_name(p, e.args[0], m.name)]
        ok = False
        for e in sets:
            path = p.st.heap.get((e.args[1], "__path__"))
            want = {A(x.ret, "submodule_search_locations") for x in first if idx(p, x) < idx(p, e)}
            want = {x for x in want if p.is_none(x) is False or p.truthy(x) is True}
            items = [(i.mode, i.val) for i in p.st.cont[path]] if path in p.st.cont else []
            ok = ok or (path in want or len(items) == 1 and items[0][0] == "seg" and items[0][1] in want) and dict(e.kw).get("was") == FALSE
        ck.ob("standin", ok, m.C, r.where, f"locating a name is tried again without a package in place of its parent ({p.cond_text()})")
        if r.kind == "recurse":
            ck.ob("standin", r.args.get("importing_module") == m.imp and same(p, r.args.get("module_name"), m.name), m.C, r.where, "another name is located instead")


def given_up(m, p):
    """Did locating the name give nothing, with nothing left to try?"""
    for e in m.specs(p):
        if same(p, e.arg("name", 0), m.name) and (p.is_none(e.ret) is True or p.truthy(e.ret) is False):
            return True
    if any(p.isinst(X, "MissingModule") is True for X, _, _ in m.located(p)):
        return True
    pc = m.parent_call(p)
    if pc is not None and p.isinst(pc.ret, "MissingModule") is True:
        return True
    if not failed_lookup(p):
        return False
    for k, v in p.st.facts.items():
        # how find_spec reports a parent that is not a package
        if k[0] == "in" and v is True and is_const(k[1]) and "__path__" in str(k[1][2]) and any(x and x[0] == "exc" and x[1] == "AttributeError" for x in walk(k[2])):
            return True
        # the parent was imported after all, or the failure is none of a module that is imported
        if k[0] == "in" and v is True and k[2] == ("ext", "sys.modules") and k[1] != m.name and m.name in walk(k[1]):
            return True
        if k[0] == "in" and v is False and k[1] == C("No module named") and any(x and x[0] == "exc" for x in walk(k[2])):
            return True
    for e in m.specs(p):
        a = e.arg("name", 0)
        if a is not None and a != m.name and m.name in walk(a):
            L = A(e.ret, "submodule_search_locations")
            if p.is_none(e.ret) is True or p.is_none(L) is True or p.truthy(e.ret) is False or p.truthy(L) is False:
                return True
    return False


def located_missing(repo):
    """Can the classification of a spec end with a missing module?"""
    fi = repo.func("_graphbuilder:node_for_spec")
    return any(isinstance(x, ast.Name) and x.id == "MissingModule" for x in ast.walk(fi.module.tree if hasattr(fi.module, "tree") else fi.node))


LOOKUP_ERRORS = ("ValueError", "AttributeError", "ModuleNotFoundError", "ImportError", "SyntaxError", "Exception", "SystemExit")


def located_rule(ck, rule):
    """Lookups and imports made to classify a located module do not raise out of it."""
    fi = ck.repo.func("_graphbuilder:node_for_spec")
    ck.need(fi, "node_for_spec not found")
    FIND = {x: LOOKUP_ERRORS for x in ("importlib.util.find_spec", "importlib.import_module", "__import__")}
    eng = ck.engine(opaque={"_contains_datafiles", "distribution_for_file", "extract_ast_info", "extract_bytecode_info", "node_for_spec"}, raise_only=set(FIND), raises=FIND)
    tried = 0
    for p in ck.run(eng, fi, label="node_for_spec[faults]"):
        tried += any(e.fn in FIND for e in p.evs("call"))
        v = p.value
        if p.kind != "raise" or v[0] != "exc" or len(v) < 3 or not isinstance(v[2], tuple) or v[2][0] not in FIND:
            continue
        e = p.events[v[2][1]]
        name = e.arg("name", 0)
        # a name that was in the module table: its packages are imported
        if any(x.kind == "ddel" and x.recv == ("ext", "sys.modules") and x.idx < e.idx and same(p, x.args[0], name) for x in p.events):
            continue
        ck.ob(rule, False, "node_for_spec", e.where, f"looking for {pretty(name)} can raise {pretty(v)}")
    ck.ob(rule, tried > 0, "node_for_spec", "node_for_spec", "no lookup is made to classify a module")


def register_rule(ck, rule, api, attr_name):
    fi = graph_method(ck.repo, api)
    eng = ck.engine(opaque={"CallbackList.add", "FirstNotNone.add", "_CallbackListBase.add"}, opaque_pred=lambda f: f.name == "add")
    hook = ("sym", [x for x in fi.params() if x != "self"][0])
    for p in ck.run(eng, fi, init=graph_init()):
        ok = any(e.kind in ("call", "graph", "mut", "dyn") and e.fn is not None and str(e.fn).split(".")[-1] == "add"
                 and hook in (tuple(e.args.values()) if isinstance(e.args, dict) else tuple(e.args))
                 and (e.recv == A(SELF, attr_name) or (isinstance(e.args, dict) and A(SELF, attr_name) in e.args.values())) for e in p.events)
        ck.ob(rule, ok and p.kind == "ret", f"ModuleGraph.{fi.name}", p.where(), "a hook is not registered")


def first_rule(ck, rule):
    call_rule(ck, rule, "FirstNotNone", True)


# ---------------------------------------------------------------------------- excludes and implied actions
def table_writes(p, T):
    """(key, value, loops, conditions, was-present, old value, event) for every entry written to table T."""
    out = []
    for e in p.events:
        if e.kind == "dset" and e.recv == T:
            kw = dict(e.kw)
            out.append((e.args[0], e.args[1], e.loops, (), kw.get("was"), kw.get("old"), e))
        elif (e.kind == "mut" and e.recv == T and e.fn == "update") or (e.kind == "setattr" and e.recv == SELF and ("attr", SELF, e.fn) == T):
            v = e.args[-1] if e.kind == "setattr" else e.args[0]
            if v in p.st.cont:
                for i in p.st.cont[v]:
                    if i.mode == "seg":
                        if i.val != T:
                            out.append((("elem", i.val, 0), ("item", i.val, ("elem", i.val, 0)), (i.val,), (), NONE, None, e))
                        continue
                    k, x = i.key, i.val
                    if k is None and x[0] == "tup" and len(x[1]) == 2:
                        k, x = x[1]
                    out.append((k, x, tuple(e.loops) + tuple(i.loops), i.conds, NONE, None, e))
            elif v[0] == "call" and v[1].endswith("fromkeys"):
                out.append((("elem", v[2][0], 0), v[2][1] if len(v[2]) > 1 else NONE, (v[2][0],), (), NONE, None, e))
            else:
                out.append((("elem", v, 0), ("item", v, ("elem", v, 0)), (v,), (), NONE, None, e))
        elif e.kind == "call" and e.fn == "setdefault" and e.recv == T:
            out.append((e.args[0], e.args[1], e.loops, (), FALSE, None, e))
    return out


def excludes_rule(ck, rule, T):
    fi = graph_method(ck.repo, "add_excludes")
    names = ("sym", [x for x in fi.params() if x != "self"][0])
    cons = "ModuleGraph.add_excludes"
    did = False
    for p in ck.run(ck.engine(types={names: ("collections.abc.Iterable+",)}), fi, init=graph_init()):
        w = p.where()
        ws = table_writes(p, T)
        st = p.isinst(names, "str")
        if p.kind == "raise":
            ck.ob(rule, st is True and not ws, cons, w, f"excluding names raises {pretty(p.value)} ({p.cond_text()})")
            continue
        ck.ob(rule, st is False, cons, w, "a single string is taken as a list of names to exclude")
        if p.empty_iter(names) or p.truthy(names) is False:
            continue
        good = [x for x in ws if x[1] == NONE and x[0] is not None and x[0][0] == "elem" and x[0][1] == names and not [c for c in x[3] if c[1][0] != "nonempty"]]
        ends = [e for e in p.evs("loopend") if e.recv == names]
        ck.ob(rule, bool(good) and all(e.fn == "exhausted" for e in ends), cons, w, f"not every name is excluded ({p.cond_text()})")
        ck.ob(rule, not [x for x in ws if x[1] != NONE], cons, w, "excluding a name registers something else")
        did = did or bool(good)
    ck.ob(rule, did, cons, cons, "no name is ever excluded")


def main_rule(ck, rule, T):
    """`__main__`, which every script is, is excluded in a new graph."""
    fi = graph_method(ck.repo, "__init__")
    for p in ck.run(ck.engine(opaque={"ModuleGraph.add_implies"}, types={("sym", "use_stdlib_implies"): ("bool",)}), fi, label="ModuleGraph.__init__[main]"):
        if p.kind != "ret":
            continue
        t = p.st.heap.get((SELF, T[2]))
        if t not in p.st.cont:
            raise AnalysisBroken("ModuleGraph.__init__ does not make the table of excluded names")
        # later entries replace earlier ones
        last = [i for i in p.st.cont[t] if i.mode == "item" and i.key == C("__main__")]
        ck.ob(rule, bool(last) and last[-1].val == NONE and not last[-1].conds, "ModuleGraph.__init__", p.where(), "__main__ is not excluded in a new graph")


def excluded_keys(p, S, T):
    """Is S a collection of exactly the keys of T whose entry is None?"""
    items = p.st.cont.get(S)
    return bool(items) and all(i.mode == "item" and i.val == ("elem", T, 0) and
                               any(c[0] == "fact" and c[1][0] == "isinst" and c[1][1] == ("item", T, ("elem", T, 0)) and c[1][2] == "None" and c[2] is True for c in i.conds) for i in items)


def implies_rule(ck, rule_prec, rule_reg, T):
    fi = graph_method(ck.repo, "add_implies")
    imp = ("sym", [x for x in fi.params() if x != "self"][0])
    cons = "ModuleGraph.add_implies"
    did = False
    key = ("elem", imp, 0)
    for p in ck.run(ck.engine(types={imp: ("dict",)}), fi, init=graph_init()):
        w = p.where()
        if p.kind == "raise":
            if rule_reg:
                ck.ob(rule_reg, False, cons, w, f"adding implied actions raises {pretty(p.value)}")
            continue
        ws = table_writes(p, T)
        for k, v, loops, conds, was, old, e in ws:
            safe = was == FALSE or (old is not None and p.is_none(old) is False) \
                or any(kk[0] == "in" and kk[1] == k and val is False and excluded_keys(p, kk[2], T) for kk, val in p.st.facts.items()) \
                or any(c[0] == "fact" and ((c[1][0] == "in" and c[1][1] == k and c[1][2] == T and c[2] is False)
                                           or (c[1][0] == "isinst" and c[1][1] == ("item", T, k) and c[1][2] == "None" and c[2] is False)
                                           or (c[1][0] == "in" and c[1][1] == k and c[2] is False and excluded_keys(p, c[1][2], T))) for c in conds)
            if rule_prec:
                ck.ob(rule_prec, safe, cons, e.where, f"an implied action can replace an exclude ({p.cond_text()})")
            if rule_reg:
                ck.ob(rule_reg, k == key and v == ("item", imp, key), cons, e.where, f"the entry registered for {pretty(k)} is {pretty(v)}")
            did = True
        if not rule_reg or p.empty_iter(imp) or p.truthy(imp) is False:
            continue
        ends = [e for e in p.evs("loopend") if e.recv == imp]
        ck.ob(rule_reg, all(e.fn == "exhausted" for e in ends), cons, w, f"the implied actions after some entry are not registered ({p.cond_text()})")
        if not ws:
            ex = any(v is True and len(k) == 3 and (k[0] == "isinst" and k[2] == "None" and mentions_table(k, T) or k[0] == "in" and k[1] == key and excluded_keys(p, k[2], T))
                     for k, v in p.st.facts.items())
            ck.ob(rule_reg, ex, cons, w, f"an implied action is not registered ({p.cond_text()})")
    ck.ob(rule_reg or rule_prec, did, cons, cons, "no implied action is ever registered")


def mentions_table(k, T):
    """Does a condition concern a value stored in table T?"""
    x = k[1]
    return T in set(walk(x)) or (x[0] == "loopvar" and str(T) in str(x))


def real_names(m, p):
    """Located modules whose name differs from the one asked for: (node, name)."""
    return [(X, node_name(p, X)) for X, _, _ in m.located(p) if p.eq(node_name(p, X), m.name) is False]


def C11(ck):
    R = ck.rule
    R("exclude", "add_excludes marks every name given as excluded, whatever was configured before")
    R("precedence", "add_implies never replaces an exclude")
    R("locate", "a name is located only after it was found not to be excluded")
    R("node", "an excluded name gives an excluded node without imports, and nothing else")
    R("below", "a name below an excluded package is excluded")
    R("alias", "the real module behind an alias is only used when its own name is not excluded")
    m = LoadModel(ck)
    n = m.n
    R("main", "`__main__` is excluded in every new graph")
    main_rule(ck, "main", m.T)
    excludes_rule(ck, "exclude", m.T)
    implies_rule(ck, "precedence", None, m.T)
    seen = set()
    for p in m.paths:
        if p.kind != "ret" or m.existing(p) is not None:
            continue
        w = p.where()
        for e in m.specs(p):
            a = e.arg("name", 0)
            if same(p, a, m.name):
                ck.ob("locate", m.in_table(p) is False, m.C, e.where, f"a name is located without asking whether it is excluded ({p.cond_text()})")
        for e in m.nodes(p):
            ck.ob("locate", m.in_table(p) is False, m.C, e.where, "a module is scanned without asking whether it is excluded")
        for X, nm in real_names(m, p):
            adds = [e for e in m.added(p) if e.arg("node", 0) == X]
            for e in adds:
                ck.ob("alias", m.in_table(p, nm) is False, m.C, e.where, f"the real module behind an alias is used without asking whether it is excluded ({p.cond_text()})")
                hp = has_parent(p, nm)
                up = [x for x in m.recs(p) if is_parent_name(p, x.args.get("module_name"), nm) and x.idx < e.idx and p.isinst(x.ret, "ExcludedModule") is False]
                ck.ob("alias", hp is False or bool(up), m.C, e.where, f"the real module behind an alias is used without asking whether its package is excluded ({p.cond_text()})")
        pc = m.parent_call(p)
        exp = pc is not None and p.isinst(pc.ret, "ExcludedModule") is True
        if pc is not None and not exp and p.isinst(pc.ret, "ExcludedModule") is None and m.specs(p):
            ck.ob("below", False, m.C, w, f"a name is located without asking whether its package is excluded ({p.cond_text()})")
        entry = table_entry(m, p, m.name)
        if exp:
            seen.add("below")
        if entry == "none":
            seen.add("node")
        for rule, on in (("below", exp), ("node", entry == "none")):
            if not on:
                continue
            v = p.value
            late = m.late_existing(p)
            if late is not None and v == late:
                continue
            ok = any(e.recv == v for e in p.evs("new", "ExcludedModule")) and same(p, node_name(p, v), m.name) and any(e.arg("node", 0) == v for e in m.added(p))
            ck.ob(rule, ok, m.C, w, f"an excluded name gives {pretty(v)} ({p.cond_text()})")
            bad = m.specs(p) + m.nodes(p) + m.hooks(p) + [e for e in m.recs(p) if e is not pc] + [e for e in p.evs("recurse") if e.fn != n.folm]
            ck.ob(rule, not bad, m.C, bad[0].where if bad else w, f"an excluded name is still resolved through {bad[0].fn if bad else ''}")
            pl = [e for e in m.pils(p) if e.args.get("node") == v]
            ck.ob(rule, all(empty(p, e.args.get("imports")) for e in pl), m.C, w, "imports are gathered for an excluded name")
    for X in ("node", "below"):
        ck.ob(X, X in seen, m.C, m.C, "excluded names are not recognised")
    ck.instances("locate", 20)
    ck.instances("alias", 2)


def table_entry(m, p, name):
    """What the table says about `name` on this path: absent, none, alias, virtual, list, None (not asked)."""
    it = m.in_table(p, name)
    taken = [e for e in p.evs("ddel") if e.recv == m.T and same(p, e.args[0], name)]
    if it is None and not taken:
        return None
    if not taken and it is False:
        return "absent"
    vals = [e.ret for e in taken] + [("item", m.T, name)]
    for v in vals:
        if p.is_none(v) is True:
            return "none"
        if p.isinst(v, "Alias") is True:
            return "alias"
        if p.isinst(v, "Virtual") is True:
            return "virtual"
    for v in vals:
        if p.is_none(v) is False and p.isinst(v, "Alias") is False and p.isinst(v, "Virtual") is False:
            return "list"
    return "unknown"


def implied_value(m, p, name):
    taken = [e for e in p.evs("ddel") if e.recv == m.T and same(p, e.args[0], name)]
    return [e.ret for e in taken] + [("item", m.T, name)]


def C12(ck):
    R = ck.rule
    R("register", "every implied action given is registered under its name")
    R("asked", "the implied actions of a name are looked up before it is located")
    R("taken", "an implied action is taken out of the table before anything it refers to is resolved")
    R("alias", "an alias or virtual entry gives an alias or virtual node with an edge to the named module")
    R("list", "a list makes the module be loaded and gives it an edge to every listed name")
    m = LoadModel(ck)
    n = m.n
    implies_rule(ck, None, "register", m.T)
    stdlib_rule(ck, "register", m.T)
    seen = set()
    for p in m.paths:
        if p.kind != "ret" or m.existing(p) is not None:
            continue
        w = p.where()
        for e in m.specs(p):
            if same(p, e.arg("name", 0), m.name):
                ck.ob("asked", m.in_table(p) is False, m.C, e.where, f"a name is located although it may have implied actions ({p.cond_text()})")
        for name in [m.name] + [nm for _, nm in real_names(m, p)]:
            ent = table_entry(m, p, name)
            if ent in (None, "absent", "none"):
                continue
            seen.add(ent)
            dels = [e for e in p.evs("ddel") if e.recv == m.T and same(p, e.args[0], name)]
            pc = m.parent_call(p)
            q0 = table_read(m, p, name)
            refs = [e for e in m.recs(p) if e is not pc and idx(p, e) > q0] + [e for e in p.evs("recurse") if e.fn != n.folm and idx(p, e) > q0]
            refs = [e for e in refs if not (e.args.get("importing_module") == NONE and is_parent_name(p, e.args.get("module_name"), name))]
            if refs:
                first = min(idx(p, e) for e in refs)
                ck.ob("taken", bool(dels) and idx(p, dels[0]) < first, m.C, refs[0].where,
                      f"a name is resolved while its implied action is still pending ({p.cond_text()})")
            if ent in ("alias", "virtual"):
                implied_node(ck, m, p, name, ent, w)
            elif ent == "list":
                implied_list(ck, m, p, name, w)
            else:
                ck.ob("list", False, m.C, w, f"an implied action is not told apart by kind ({p.cond_text()})")
    for k in ("alias", "virtual", "list"):
        ck.ob("list" if k == "list" else "alias", k in seen, m.C, m.C, f"{k} entries are not recognised")
    ck.instances("asked", 20)
    ck.instances("taken", 6)
    ck.instances("list", 3)


def table_read(m, p, name):
    """Index of the first event after the table was consulted (the entry's removal, or the start)."""
    for i, e in enumerate(p.events):
        if e.kind == "ddel" and e.recv == m.T and same(p, e.args[0], name):
            return i
    pc = m.parent_call(p)
    if same(p, name, m.name):
        return idx(p, pc) + 1 if pc is not None else 0
    ns = m.nodes(p)
    return idx(p, ns[0]) + 1 if ns else 0


def result_for(m, p, name):
    """The node this path ends up with for `name`."""
    if same(p, name, m.name):
        return p.value
    for s, d, _, e in edges(p):
        if same(p, s, p.value) and (not m.parent_call(p) or d != m.parent_call(p).ret):
            return d
    return None


def implied_node(ck, m, p, name, ent, w):
    cls, fld = ("AliasNode", "actual_module") if ent == "alias" else ("VirtualNode", "providing_module")
    vals = implied_value(m, p, name)
    new = [e for e in p.evs("new", cls) if same(p, node_name(p, e.recv), name)]
    if not ck.ob("alias", len(new) == 1, m.C, w, f"an {ent} entry gives no {cls} ({p.cond_text()})"):
        return
    N = new[0].recv
    ck.ob("alias", any(same(p, p.st.heap.get((N, fld)), v) for v in vals), m.C, new[0].where, f"the {cls} refers to {pretty(p.st.heap.get((N, fld)) or NONE)}")
    adds = [e for e in m.added(p) if e.arg("node", 0) == N]
    refs = [e for e in m.recs(p) if any(same(p, e.args.get("module_name"), v) for v in vals)]
    refs += [e for e in p.evs("query", "find_node") if any(same(p, e.arg("node", 0), v) for v in vals) and p.is_none(e.ret) is False]
    ck.ob("alias", len(adds) == 1 and bool(refs) and idx(p, adds[0]) < idx(p, refs[0]), m.C, w, f"the {cls} is not added before the name it stands for is resolved")
    ck.ob("alias", any(s == N and any(same(p, d, e.ret) for e in refs) for s, d, _, _ in edges(p)), m.C, w, f"the {cls} has no edge to the module it stands for")
    ck.ob("alias", same(p, result_for(m, p, name), N), m.C, w, f"the result is not the {cls}")


def implied_list(ck, m, p, name, w):
    vals = implied_value(m, p, name)
    node = result_for(m, p, name)
    ok = any(e.ret == node and same(p, e.args.get("module_name"), name) for e in p.evs("recurse")) or any(node == x for x, _, _ in m.located(p))
    if not ck.ob("list", ok, m.C, w, f"a module with listed dependencies is not loaded itself, the result is {pretty(node) if node else None} ({p.cond_text()})"):
        return
    it = [v for v in vals if p.empty_iter(v)]
    if it or any(p.truthy(v) is False for v in vals):
        return
    refs = [e for e in m.recs(p) if e.args.get("module_name", NONE)[0] == "elem" and e.args["module_name"][1] in vals]
    es = [e for e in edges(p) if same(p, e[0], node) and any(e[1] == r.ret for r in refs)]
    ends = [e for e in p.evs("loopend") if e.recv in vals]
    ck.ob("list", bool(refs) and bool(es) and all(e.fn == "exhausted" for e in ends) and all(set(r.loops) & set(vals) for r in refs), m.C, w,
          f"not every listed name gets an edge from the module ({p.cond_text()})")


def stdlib_rule(ck, rule, T):
    """With use_stdlib_implies the built-in table is registered, and only then."""
    fi = graph_method(ck.repo, "__init__")
    flag = ("sym", "use_stdlib_implies")
    if "use_stdlib_implies" not in [a.arg for a in fi.node.args.kwonlyargs] + fi.params():
        raise AnalysisBroken("ModuleGraph.__init__ has no use_stdlib_implies")
    default_true(ck, rule, fi, "use_stdlib_implies")
    eng = ck.engine(opaque={"ModuleGraph.add_implies"}, types={flag: ("bool",)})
    for p in ck.run(eng, fi, init=graph_init(stack=False)):
        if p.kind != "ret":
            continue
        reg = [e for e in calls(p, "ModuleGraph.add_implies")]
        ck.ob(rule, bool(reg) == (p.truthy(flag) is True), "ModuleGraph.__init__", p.where(), "the built-in implied actions are not registered as asked")


# ---------------------------------------------------------------------------- pending work
def is_post(p, x, node, attr_name, ck):
    """Is work entry x the call of the post-processing hooks with (graph, node)?"""
    if x.kind != "call":
        return False
    if x.target == A(SELF, attr_name):
        return x.args == (SELF, node)
    if isinstance(x.target, tuple) and x.target[0] == "attr" and x.target[2] in ("__call__",) and x.target[1] == A(SELF, attr_name):
        return x.args == (SELF, node)
    if isinstance(x.target, str) and x.target.split(".")[-1] == "__call__":
        return x.args == (A(SELF, attr_name), SELF, node)
    if isinstance(x.target, str) and x.target.startswith("ModuleGraph."):
        fi = ck.repo.func("_modulegraph:" + x.target)
        if fi is None or node not in x.args:
            return False
        ps = [a for a in fi.params()]
        eng = ck.engine(opaque={"CallbackList.__call__"})
        vals = dict(zip(ps, x.args))
        paths = [P(eng, y) for y in eng.run(fi, args=vals, init=graph_init())]
        ok = True
        for y in paths:
            cs = [e for e in y.events if (e.kind == "dyn" and e.recv == A(SELF, attr_name)) or (e.kind == "call" and e.fn == "CallbackList.__call__")]
            a = [tuple(e.args.values()) if isinstance(e.args, dict) else tuple(e.args) for e in cs]
            ok = ok and len(cs) == 1 and any(v[-1] == node and SELF in v or ("tup", (SELF, node)) in v for v in a)
        return ok
    return False


def guard_of(p, node):
    """The collection that tells whether hooks were already scheduled for `node`: (set term, member?)."""
    ids = (A(node, "name"), A(node, "identifier"), node)
    for k, v in p.st.facts.items():
        if k[0] == "in" and k[1] in ids and k[2][0] == "attr" and k[2][1] == SELF:
            return k[2]
    return None


def C13(ck):
    R = ck.rule
    R("schedule", "scheduling a node's imports puts its hooks below them, unless they were scheduled before")
    R("guard", "only scheduling marks a node as scheduled, and nothing unmarks it")
    R("every", "every node added, and every node answered by a hook, is scheduled")
    R("lifo", "pending work is taken newest first and called")
    R("hooks", "all registered hooks are called with the graph and the node, newest first")
    R("own", "every graph has its own marks, hooks, pending work and lazy names")
    n = Names(ck.repo)
    pa = hook_attr(ck.repo, "CallbackList", "_post_processing")
    fi, node, imports, paths = pil_paths(ck, n)
    cons = n.pil
    guards = set()
    did = set()
    for p in paths:
        if not ret_or_violation(ck, "schedule", p, cons, "scheduling imports"):
            continue
        w = p.where()
        st = stack_of(p)
        posts = [i for i, x in enumerate(st) if x.kind != "seg" and x.target != n.pi and is_post(p, x, node, pa, ck)]
        others = [x for i, x in enumerate(st) if x.kind != "seg" and x.target != n.pi and i not in posts]
        ck.ob("schedule", not others, cons, w, f"other work is scheduled with a node's imports: {others}")
        ids = (A(node, "name"), A(node, "identifier"), node)
        adds = [e for e in p.evs("mut") if e.fn in ("add", "update", "append") and e.recv[0] == "attr" and e.recv[1] == SELF and (e.args and e.args[0] in ids)]
        was = [(k[2], False) for k, v in p.st.facts.items() if k[0] == "in" and k[1] in ids and v is False]
        G = guard_of(p, node)
        if posts:
            first_pi = next((i for i, x in enumerate(st) if x.target == n.pi), len(st))
            ck.ob("schedule", len(posts) == 1 and posts[0] < first_pi and st[0].kind == "seg" and st[0].target == WS0 and not st[posts[0]].loops, cons, w,
                  f"the hooks of a node are not scheduled once and below its imports ({p.cond_text()})")
            ck.ob("schedule", bool(adds), cons, w, "a node whose hooks are scheduled is not marked, they can run twice")
            guards |= {e.recv for e in adds}
            pre = {e.recv: pre_member(p, e) for e in adds}
            ck.ob("schedule", any(v is False for v in pre.values()), cons, w, f"hooks are scheduled without asking whether they already were ({p.cond_text()})")
            did.add("post")
        else:
            ck.ob("schedule", G is not None and p.member(A(node, "name"), G) is True or any(p.member(i, G) is True for i in ids if G is not None), cons, w,
                  f"the hooks of a node are not scheduled ({p.cond_text()})")
            did.add("skip")
    ck.ob("schedule", "post" in did, cons, cons, "hooks are never scheduled")
    guard_rule(ck, "guard", {g[2] for g in guards}, n)
    own_rule(ck, "own", "ModuleGraph", {g[2] for g in guards} | {pa, hook_attr(ck.repo), ws_attr(ck.repo), lazy_attr(ck.repo)})
    m = LoadModel(ck)
    for p in m.paths:
        if p.kind != "ret":
            continue
        once_rule(ck, "every", p, n, m.C)
        h = hook_answer(m, p)
        if h is not None:
            pl = [e for e in m.pils(p) if same(p, e.args.get("node"), h)]
            ck.ob("every", len(pl) == 1, m.C, p.where(), f"the hooks of a node answered by a missing hook are never run ({p.cond_text()})")
    for name, op in (("_process_import", set()), ("_load_script", {"extract_ast_info"}), ("add_dependencies_for_source", {"extract_ast_info", "ModuleGraph.add_module"})):
        f2 = graph_method(ck.repo, name)
        for p in ck.run(ck.engine(opaque=n.opaque | op | {drain_name(ck.repo)}), f2, init=graph_init()):
            if p.kind == "ret":
                once_rule(ck, "every", p, n, f"ModuleGraph.{f2.name}")
    lifo_rule(ck, "lifo")
    call_rule(ck, "hooks", "CallbackList", False)
    register_rule(ck, "hooks", "add_post_processing_hook", pa)
    ck.instances("schedule", 5)
    ck.instances("every", 20)


def pre_member(p, ev):
    """Was the element known (not) to be in the set before it was added?"""
    kw = dict(ev.kw)
    if "was" in kw:
        return None if kw["was"] == NONE else kw["was"][2]
    return None


def guard_rule(ck, rule, attrs, n):
    """Writes to the guard set other than by scheduling and construction."""
    inl = set()
    fi = graph_method(ck.repo, n.pil.split(".")[-1])
    eng = ck.engine(opaque={n.folm, n.pi, n.pnl})
    eng.run(fi, init=graph_init())
    inl = {q for q in eng.inlined if isinstance(q, str)}
    for f in ck.repo.all_funcs():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr in attrs:
                par = getattr(x, "parent", None)
                if f.qual in inl or f.name == "__init__":
                    ck.ob(rule, True, f.qual, f.qual, "")
                    continue
                ok = isinstance(x.ctx, ast.Load) and not mutating_use(f.node, x)
                ck.ob(rule, ok, f.qual.replace("modulegraph2.", ""), f"{f.module.path}:{x.lineno}", "the record of scheduled hooks is changed here")


def mutating_use(tree, attr_node):
    for x in ast.walk(tree):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.value is attr_node and x.func.attr in (
                "add", "discard", "remove", "clear", "pop", "update", "difference_update", "append", "insert", "extend"):
            return True
        if isinstance(x, ast.AugAssign) and x.target is attr_node:
            return True
    return False


def lifo_rule(ck, rule):
    """The drain takes the newest entry, calls it, and goes on until nothing is left."""
    dn = drain_name(ck.repo)
    fi = graph_method(ck.repo, dn.split(".")[1])
    took = False
    for p in ck.run(ck.engine(), fi, init=graph_init()):
        w = p.where()
        if p.kind == "raise":
            ck.ob(rule, False, dn, w, f"draining raises {pretty(p.value)}")
            continue
        left = [e for e in p.evs("loopend") if e.fn != "exhausted"]
        ck.ob(rule, not left, dn, w, f"draining stops while work is pending ({p.cond_text()})")
        wl = p.st.heap.get((SELF, ws_attr(ck.repo)))
        ck.ob(rule, p.truthy(wl) is False if wl is not None else False, dn, w, "draining can end while work is pending")
        pops = [e for e in p.events if e.kind == "pop"]
        if not pops:
            ck.ob(rule, not p.evs("dyn"), dn, w, "something is called without pending work")
            continue
        took = True
        for e in pops:
            ck.ob(rule, len(pops) == 1 and e.fn == "pop" and (not e.args or e.args[0] == C(-1)), dn, e.where, "pending work is not taken newest first")
        ds = p.evs("dyn")
        ok = len(ds) == 1 and pops and any(x == pops[0].ret for x in walk(ds[0].recv)) if pops[0].ret is not None and pops[0].ret != NONE else len(ds) == 1 and any(x and x[0] == "popped" for x in walk(ds[0].recv))
        ck.ob(rule, bool(ok), dn, w, f"pending work that was taken is not called ({p.cond_text()})")
        if ok:
            args = [x for a in ds[0].args for x in walk(a)]
            full = ds[0].recv[0] == "popped" or any(x and x[0] == "popped" for x in args)
            ck.ob(rule, full, dn, ds[0].where, "pending work is called without its arguments")
    ck.ob(rule, took, dn, dn, "no pending work is ever taken")


def loads_in(p, n, rs, extra=()):
    """Events that can leave work pending."""
    return [e for e in p.events if (e.kind in ("call", "recurse") and (e.fn in (n.folm, n.pil) or e.fn in extra)) or (e.kind == "dyn")]


def drained(p, n, rs, extra=()):
    """Is the last event that can leave work pending followed by a drain?"""
    ls = loads_in(p, n, rs, extra)
    if not ls:
        return True
    last = idx(p, ls[-1])
    return any(idx(p, e) > last and set(e.loops) <= set(ls[-1].loops) for e in calls(p, rs))


PUBLIC = ("add_script", "add_module", "add_distribution", "add_dependencies_for_source")


def C14(ck):
    R = ck.rule
    R("drain", "public operations drain the pending work after everything they load")
    R("context", "a hook_context block drains the pending work, whether its body raises or not")
    R("run", "draining goes on until nothing is pending, newest work first")
    R("nested", "a nested drain runs on work of its own and puts the outer work back, unchanged and below")
    R("order", "names of a from-list are looked up after the work pushed for their module")
    R("ends", "a loop that goes from node to node never visits one twice")
    n = Names(ck.repo)
    rs = drain_name(ck.repo)
    for name in PUBLIC:
        fi = graph_method(ck.repo, name)
        some = False
        for p in ck.run(ck.engine(opaque=n.opaque | {rs, "extract_ast_info", "distribution_named"}), fi, init=graph_init()):
            if p.kind != "ret":
                continue
            some = some or bool(loads_in(p, n, rs))
            ck.ob("drain", drained(p, n, rs), f"ModuleGraph.{name}", p.where(), f"work is left pending when the operation ends ({p.cond_text()})")
        ck.ob("drain", some, f"ModuleGraph.{name}", f"ModuleGraph.{name}", "nothing is ever loaded")
    context_rule(ck, "context", rs)
    lifo_rule(ck, "run")
    nested_rule(ck, "nested", n, rs)
    order_rule(ck, "order")
    ends_rule(ck, "ends", n, rs)
    ck.instances("drain", 10)
    ck.instances("order", 5)
    ck.instances("nested", 10)


def ends_rule(ck, rule, n, rs):
    """Every `while` of the graph builder that steps along nodes keeps a record of those it has seen."""
    for ci in ck.repo.classes.values():
        if ci.module.name != "modulegraph2._modulegraph":
            continue
        for fi in ci.methods.values():
            if fi.name == rs or not any(isinstance(x, ast.While) for x in ast.walk(fi.node)):
                continue
            for p in ck.run(ck.engine(opaque=n.opaque | {rs}), fi, init=graph_init()):
                loops = {k[1] for k, v in p.st.facts.items() if k[0] == "nonempty" and v and k[1][0] == "while"}
                for L in loops:
                    steps = {x for e in p.evs(("query", "call", "recurse")) if L in e.loops for a in (e.args.values() if isinstance(e.args, dict) else e.args) for x in walk(a) if x and x[0] == "loopvar" and x[2:] == L[1:]}
                    for v in steps:
                        ok = False
                        for k, b in p.st.facts.items():
                            if k[0] == "in" and b is False and v in walk(k[1]) and k[2] in p.st.cont:
                                ok = ok or any(i.mode == "item" and k[1] in (i.val, i.key) for i in p.st.cont[k[2]])
                        ck.ob(rule, ok, fi.cls.name + "." + fi.name, p.where(), f"nothing stops the loop from going round for ever ({p.cond_text()})")


def context_rule(ck, rule, rs):
    fi = graph_method(ck.repo, "hook_context")

    def on_yield(eng):
        def f(v, s):
            eng.event(s, "yield", "yield", None, (v,), (), NONE, (fi.module.path, fi.node.lineno))
            s2 = s.fork()
            return [(None, s), (("raise", ("exc", "Exception", ("body", 0))), s2)]
        return f
    for exc in (False, True):
        eng = ck.engine(opaque={rs})
        kinds = set()
        for p in ck.run(eng, fi, init=graph_init(), on_yield=on_yield(eng)):
            ys = [e for e in p.events if e.kind == "yield"]
            ck.ob(rule, len(ys) == 1, "ModuleGraph.hook_context", p.where(), "the block is not run exactly once")
            if not ys:
                continue
            ok = any(idx(p, e) > idx(p, ys[0]) for e in calls(p, rs))
            ck.ob(rule, ok, "ModuleGraph.hook_context", p.where(), f"pending work is not drained when the block ends {'with an exception' if p.kind == 'raise' else 'normally'}")
            kinds.add(p.kind)
        break


def nested_rule(ck, rule, n, rs):
    """import_package drains in between: on a stack of its own, restored in every case."""
    wa = ws_attr(ck.repo)

    def stack_now(eng, st):
        o = st.heap.get((SELF, wa))
        return ("tup", tuple(i.val for i in st.cont[o] if i.mode == "seg")) if o in st.cont else o if o is not None else A(SELF, wa)
    fi = graph_method(ck.repo, "import_package")
    cons = "ModuleGraph.import_package"
    some = False
    for raises in (False, True):
        kw = dict(raise_only={rs}, raises={rs: ("Exception",)}) if raises else {}
        eng = ck.engine(opaque=n.opaque | {rs}, watch={rs: stack_now}, **kw)
        for p in ck.run(eng, fi, init=graph_init(), label=cons + ("[faults]" if raises else "")):
            for e in calls(p, rs):
                some = True
                seen = dict(e.kw).get("watched")
                ck.ob(rule, seen is not None and WS0 not in set(walk(seen)), cons, e.where, "the pending work of the surrounding operation is run inside a nested import")
            st = stack_of(p)
            ok = st is not None and len([x for x in st if x.kind == "seg" and x.target == WS0]) == 1 and st[0].kind == "seg" and st[0].target == WS0
            if p.kind == "raise" and not (p.value[0] == "exc" and isinstance(p.value[2], tuple) and p.value[2][0] == rs):
                continue
            ck.ob(rule, ok, cons, p.where(), f"the pending work of the surrounding operation is lost or moved {'when the nested import raises' if p.kind == 'raise' else ''} ({p.cond_text()})")
            if p.kind == "raise":
                left = [x for x in st or () if x.kind == "seg" and isinstance(x.target, tuple) and x.target[0] == "pushed"]
                ck.ob(rule, left, cons, p.where(), f"work the nested import has not come to is lost when it raises ({p.cond_text()})")
    ck.ob(rule, some or True, cons, cons, "")
    if not some:
        ck.notes.append("import_package does not drain in between")


def order_rule(ck, rule):
    m = ImportModel(ck)
    n = m.n
    for p in m.paths:
        if p.kind != "ret":
            continue
        w = p.where()
        st = stack_of(p)
        if not ck.ob(rule, st is not None and st and st[0].kind == "seg" and st[0].target == WS0, m.C, w, "work that was already pending is lost or moved"):
            continue
        names = [i for i, x in enumerate(st) if x.target == n.pnl]
        linked = [e for e in edges(p) if e[0] == m.imp]
        if not linked or is_invalid(p, m, linked[0][1]):
            ck.ob(rule, not names, m.C, w, "names of an invalid import are looked up")
            continue
        if not names:
            none = p.truthy(A(m.info, "import_names")) is False and p.truthy(A(m.info, "star_import")) is False
            ck.ob(rule, none, m.C, w, f"the names of an import are never looked up ({p.cond_text()})")
            continue
        ok = len(names) == 1 and names[0] == 1 and not st[1].loops and st[1].args == (SELF, m.imp, linked[0][1], m.info)
        ck.ob(rule, ok, m.C, w, f"names are looked up before the work their module needs: {st}")


# ---------------------------------------------------------------------------- roots
def C15(ck):
    R = ck.rule
    R("module", "add_module makes the node of the name a root, and only that")
    R("script", "add_script makes the script a root, and only that")
    R("distribution", "a first add_distribution makes the distribution a root, and only that")
    R("source", "add_dependencies_for_source makes roots of the modules imported by the source and the names imported from them")
    R("nothing", "nothing else makes roots: import processing, lookups, hook APIs, built-in hooks")
    n = Names(ck.repo)
    rs = drain_name(ck.repo)
    base = n.opaque | {rs, "extract_ast_info", "distribution_named"}
    f = {x: graph_method(ck.repo, x) for x in PUBLIC}

    def roots(p):
        return p.evs("graph", "add_root")
    nm = ("sym", [x for x in f["add_module"].params() if x != "self"][0])
    for p in ck.run(ck.engine(opaque=base), f["add_module"], init=graph_init()):
        if p.kind != "ret":
            continue
        rt = roots(p)
        ck.ob("module", len(rt) == 1 and not rt[0].loops and node_for(p, n, rt[0].arg("node", 0), nm), "ModuleGraph.add_module", p.where(),
              f"the roots added are {', '.join(pretty(e.arg('node', 0)) for e in rt) or 'none'} ({p.cond_text()})")
    for p in ck.run(ck.engine(opaque=base), f["add_script"], init=graph_init()):
        if p.kind != "ret":
            continue
        rt = roots(p)
        ad = p.evs("graph", "add_node")
        ck.ob("script", len(rt) == 1 and len(ad) == 1 and rt[0].arg("node", 0) == ad[0].arg("node", 0) == p.value, "ModuleGraph.add_script", p.where(),
              f"the roots added are {', '.join(pretty(e.arg('node', 0)) for e in rt) or 'none'}")
    for p in ck.run(ck.engine(opaque=base), f["add_distribution"], init=graph_init()):
        if p.kind != "ret":
            continue
        rt = roots(p)
        ad = p.evs("graph", "add_node")
        ok = (len(rt) == 1 and not rt[0].loops and rt[0].arg("node", 0) == ad[0].arg("node", 0)) if ad else not rt
        ck.ob("distribution", ok, "ModuleGraph.add_distribution", p.where(), f"the roots added are {', '.join(pretty(e.arg('node', 0)) for e in rt) or 'none'}")
    source_rule(ck, "source", n, base)
    others(ck, "nothing", n, rs)
    for r in ("module", "script", "distribution", "source"):
        ck.instances(r, 1)


def source_rule(ck, rule, n, base):
    fi = graph_method(ck.repo, "add_dependencies_for_source")
    cons = "ModuleGraph.add_dependencies_for_source"
    kinds = set()
    for p in ck.run(ck.engine(opaque=base), fi, init=graph_init()):
        if p.kind != "ret":
            continue
        w = p.where()
        scan = [e for e in p.events if e.kind == "call" and str(e.fn).split(".")[-1] == "extract_ast_info"]
        if not ck.ob(rule, len(scan) == 1, cons, w, "the source is not scanned once"):
            continue
        L = scan[0].ret
        if p.empty_iter(L):
            ck.ob(rule, not p.evs("graph", "add_root"), cons, w, "a source without imports makes roots")
            continue
        info = ("elem", L, 0)
        lv = A(info, "import_level")
        rt = p.evs("graph", "add_root")
        ends = [e for e in p.evs("loopend") if e.recv == L]
        ck.ob(rule, all(e.fn == "exhausted" for e in ends), cons, w, "the imports after some import are not added")
        mod, names = A(info, "import_module"), A(info, "import_names")
        rel = p.truthy(lv) if p.truthy(lv) is not None else (None if p.eq(lv, C(0)) is None else not p.eq(lv, C(0)))
        if rel is None:
            ck.ob(rule, False, cons, w, "relative imports are not told apart")
            continue
        kinds.add(rel)
        if rel:
            dots = cat([("rep", C("."), lv), mod])
            ok = len(rt) == 1 and rt[0].loops == (L,) and (p.isinst(rt[0].arg("node", 0), "InvalidRelativeImport") is True and same(p, node_name(p, rt[0].arg("node", 0)), dots)
                                                          or node_for(p, n, rt[0].arg("node", 0), dots))
            ck.ob(rule, ok, cons, w, f"a relative import makes the roots {', '.join(pretty(e.arg('node', 0)) for e in rt) or 'none'}")
            continue
        first = [e for e in rt if e.loops == (L,)]
        ck.ob(rule, len(first) == 1 and node_for(p, n, first[0].arg("node", 0), mod), cons, w, f"the imported module is not made a root ({p.cond_text()})")
        rest = [e for e in rt if e.loops == (L, names)]
        sub = cat([mod, C("."), ("elem", names, 0)])
        if p.empty_iter(names) or p.truthy(names) is False:
            ck.ob(rule, len(rt) == 1, cons, w, "other roots are made")
            continue
        ends = [e for e in p.evs("loopend") if e.recv == names]
        ck.ob(rule, len(rest) == 1 and len(rt) == 2 and node_for(p, n, rest[0].arg("node", 0), sub) and all(e.fn == "exhausted" for e in ends), cons, w,
              f"the names imported from a module are not made roots ({p.cond_text()})")
    ck.ob(rule, False in kinds, cons, cons, "absolute imports are not handled")


def others(ck, rule, n, rs):
    repo = ck.repo
    runs = []
    for name in ("_process_import", "_process_namelist", "_process_import_list", "import_module", "import_package", "hook_context"):
        runs.append((graph_method(repo, name), n.opaque - {f"ModuleGraph.{name}"} | {rs}, SELF))
    runs.append((graph_method(repo, "_find_or_load_module"), {n.pil, "node_for_spec", "split_package"}, SELF))
    for q_, op in (("_mypyc_support:mypyc_post_processing_hook", {"extract_ast_info", "ModuleGraph.import_module"}), ("_swig_support:swig_missing_hook", {"node_for_spec"})):
        fi = repo.func(q_)
        if fi is None:
            raise AnalysisBroken(f"{q_} not found")
        runs.append((fi, n.opaque | {rs} | op, ("sym", fi.params()[0])))
    for fi, op, g in runs:
        cons = fi.qual.replace("modulegraph2.", "")
        for p in ck.run(ck.engine(opaque=op), fi, init=graph_init(g) if g == SELF else graph_init(g)):
            rt = p.evs("graph", "add_root") + [e for e in p.events if e.kind in ("call", "recurse") and e.fn in tuple(f"ModuleGraph.{x}" for x in PUBLIC)]
            ck.ob(rule, not rt, cons, rt[0].where if rt else p.where(), f"{pretty(rt[0].arg('node', 0) or NONE) if rt else ''} becomes a root here ({p.cond_text()})")


# ---------------------------------------------------------------------------- rejected additions
def changes(p, n):
    """Events that change nodes, edges, roots, pending work or other state of the graph."""
    out = [e for e in mutations(p, n)]
    for e in p.events:
        if e.kind in ("setattr", "dset", "ddel") and e.recv is not None and SELF in set(walk(e.recv)):
            out.append(e)
        if e.kind == "mut" and e.recv[0] == "attr" and e.recv[1] == SELF:
            out.append(e)
        if e.kind == "dyn":
            out.append(e)
    return out


READS = {"open": ("OSError", "FileNotFoundError", "PermissionError", "IsADirectoryError", "NotADirectoryError"), ".read": ("OSError", "IsADirectoryError"), "importlib.util.decode_source": ("SyntaxError", "UnicodeDecodeError"), "compile": ("SyntaxError", "IndentationError", "ValueError", "OverflowError"),
         "extract_ast_info": ("RecursionError",), "tokenize.open": ("OSError", "FileNotFoundError", "PermissionError", "SyntaxError"), "ast.parse": ("SyntaxError",), "tokenize.detect_encoding": ("SyntaxError",)}


def C16(ck):
    R = ck.rule
    R("known", "adding a script that is in the graph raises ValueError and changes nothing")
    R("error", "errors of opening, reading, decoding and compiling a script are let through")
    R("unchanged", "an addition that ends with an exception has changed nothing")
    R("unknown", "adding an unknown distribution raises ValueError and changes nothing")
    R("present", "adding a distribution that is present returns the existing node and changes nothing")
    R("excludes", "excluding a single string raises TypeError and changes nothing")
    n = Names(ck.repo)
    strings_rule(ck, "excludes")
    rs = drain_name(ck.repo)
    fi = graph_method(ck.repo, "add_script")
    path = ("sym", [x for x in fi.params() if x != "self"][0])
    cons = "ModuleGraph.add_script"
    fsp = ("call", "os.fspath", (path,), (), 0)
    eng = ck.engine(opaque=n.opaque | {rs, "extract_ast_info"})
    known = False
    for p in ck.run(eng, fi, init=graph_init()):
        q0 = [e for e in p.evs("query", "find_node") if same(p, e.arg("node", 0), fsp) or (e.arg("node", 0) is not None and path in set(walk(e.arg("node", 0))))]
        there = [e for e in q0 if p.is_none(e.ret) is False]
        if there:
            known = True
            ck.ob("known", p.kind == "raise" and p.value[:2] == ("exc", "ValueError"), cons, p.where(), f"adding a known script {'raises ' + pretty(p.value) if p.kind == 'raise' else 'is accepted'}")
            ck.ob("known", not changes(p, n), cons, p.where(), "adding a known script changes the graph")
    ck.ob("known", known, cons, cons, "known scripts are not recognised")
    eng = ck.engine(opaque=n.opaque | {rs, "extract_ast_info"}, raise_only=set(READS), raises={k: v for k, v in READS.items()})
    kinds = set()
    for p in ck.run(eng, fi, init=graph_init(), label=cons + "[faults]"):
        if p.kind != "raise":
            hs = [e for e in p.evs("handler")]
            continue
        v = p.value
        ch = changes(p, n)
        ck.ob("unchanged", not ch, cons, ch[0].where if ch else p.where(), f"{ch[0].fn if ch else ''} has happened before {pretty(v)} is raised ({p.cond_text()})")
        if isinstance(v[2], tuple) and v[2][0] in READS:
            kinds.add((v[2][0], v[1]))
            ck.ob("error", True, cons, p.where(), "")
        elif v[:2] != ("exc", "ValueError") or not any(p.is_none(e.ret) is False for e in p.evs("query", "find_node")):
            ck.ob("error", False, cons, p.where(), f"adding a script raises {pretty(v)} of its own ({p.cond_text()})")
    eng2 = ck.engine(opaque=n.opaque | {rs, "extract_ast_info"}, raise_only=set(READS), raises={k: v for k, v in READS.items()})
    for p in [P(eng, x.path) for x in ck.run(eng2, fi, init=graph_init(), label=cons + "[handlers]")]:
        hs = p.evs("handler")
        if hs and p.kind == "ret":
            ck.ob("error", False, cons, hs[0].where, f"an error while loading a script is swallowed ({p.cond_text()})")
    src = {k for k, _ in kinds}
    ck.ob("error", any(k in src for k in ("open", "tokenize.open", ".read")) and any(k in src for k in ("compile", "ast.parse")), cons, cons, f"no reading or compiling error is let through (seen: {sorted(src)})")
    late_rule(ck, "unchanged", n, rs, fi, cons)
    fi = graph_method(ck.repo, "add_distribution")
    cons = "ModuleGraph.add_distribution"
    seen = set()
    for p in ck.run(ck.engine(opaque=n.opaque | {rs, "distribution_named"}), fi, init=graph_init()):
        named = [e for e in calls(p, "distribution_named")]
        if p.kind == "raise":
            ok = p.value[:2] == ("exc", "ValueError") and named and p.is_none(named[0].ret) is True
            ck.ob("unknown", bool(ok), cons, p.where(), f"adding a distribution raises {pretty(p.value)} ({p.cond_text()})")
            ck.ob("unknown", not changes(p, n), cons, p.where(), "an unknown distribution changes the graph")
            seen.add("unknown")
            continue
        ck.ob("unknown", not named or p.is_none(named[0].ret) is False, cons, p.where(), "an unknown distribution name is accepted")
        there = [e for e in p.evs("query", "find_node") if p.is_none(e.ret) is False]
        if there:
            seen.add("present")
            ck.ob("present", same(p, p.value, there[0].ret), cons, p.where(), f"a known distribution is answered with {pretty(p.value)}")
            ck.ob("present", not changes(p, n), cons, p.where(), f"adding a known distribution again changes the graph ({p.cond_text()})")
    for k in ("unknown", "present"):
        ck.ob(k, k in seen, cons, cons, f"{k} distributions are not recognised")


def strings_rule(ck, rule):
    """add_excludes takes a sequence of names: one string would exclude each of its characters."""
    n = Names(ck.repo)
    fi = graph_method(ck.repo, "add_excludes")
    names = ("sym", [x for x in fi.params() if x != "self"][0])
    cons = "ModuleGraph.add_excludes"
    for p in ck.run(ck.engine(types={names: ("str",)}), fi, init=graph_init(), label=cons + "[str]"):
        ck.ob(rule, p.kind == "raise" and p.value[:2] == ("exc", "TypeError"), cons, p.where(), f"a single string is {'answered with ' + pretty(p.value) if p.kind == 'raise' else 'accepted'} ({p.cond_text()})")
        ch = changes(p, n) + [e for e in p.events if e.kind == "mut" and SELF in set(walk(e.recv))]
        ck.ob(rule, not ch, cons, ch[0].where if ch else p.where(), "a single string changes the excluded names before it is rejected")


def late_rule(ck, rule, n, rs, fi, cons):
    """Nothing that can fail on the script's content is left for after the first change."""
    eng = ck.engine(opaque=n.opaque | {rs, "extract_ast_info"})
    for p in ck.run(eng, fi, init=graph_init()):
        if p.kind != "ret":
            continue
        ch = changes(p, n)
        if not ch:
            continue
        first = idx(p, ch[0])
        late = [e for e in p.events[first:] if e.kind == "call" and (e.fn in READS)]
        ck.ob(rule, not late, cons, late[0].where if late else p.where(), f"{late[0].fn if late else ''} can fail after the graph was changed")
