"""Shared machinery of the property rules: entry points, path queries, obligations."""
import ast

from .engine import Abr, Engine, Item, Policy
from .repo import AnalysisBroken, Repo
from .terms import C, FALSE, NONE, TRUE, cat, pretty, walk, mentions, cat_parts, is_const, is_str_const, subst

SELF = ("sym", "self")


def sym(n):
    return ("sym", n)


def attr(b, n):
    return ("attr", b, n)


class Check:
    """Collects the obligations of one property and what discharged or broke them."""

    def __init__(self, pid, repo=None):
        self.pid = pid
        self.repo = repo or Repo()
        self.rules = {}
        self.violations = []
        self.entries = {}
        self.functions = set()
        self.notes = []
        self.npaths = 0
        self.nevents = 0
        self._seen = set()
        self.assumptions = []
        self.tier = "quick"

    def rule(self, name, text):
        self.rules.setdefault(name, {"rule": text, "obligations": 0, "violated": 0})

    def ob(self, rule, ok, construct, where, msg):
        r = self.rules[rule]
        r["obligations"] += 1
        if not ok:
            r["violated"] += 1
            key = (rule, construct, msg)
            if key not in self._seen:
                self._seen.add(key)
                self.violations.append({"rule": rule, "construct": construct, "where": where, "message": msg})
        return ok

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def instances(self, rule, minimum):
        n = self.rules[rule]["obligations"]
        if n < minimum:
            raise AnalysisBroken(f"rule {rule}: only {n} instances (expected at least {minimum})")

    # -- engine runs ---------------------------------------------------------
    def engine(self, **kw):
        e = Engine(self.repo, Policy(**kw))
        return e

    def run(self, eng, fi, label=None, **kw):
        paths = eng.run(fi, **kw)
        self.functions |= {q.replace("modulegraph2.", "") for q in eng.inlined if isinstance(q, str)}
        self.npaths += len(paths)
        self.nevents += sum(len(p.events) for p in paths)
        self.entries[label or fi.qual] = self.entries.get(label or fi.qual, 0) + len(paths)
        out = [P(eng, p) for p in paths]
        for p in out:
            v = p.value
            if p.kind == "raise" and v[0] == "exc" and len(v) > 2 and isinstance(v[2], tuple) and v[2] and v[2][0] == "none":
                self.rule("crash", "no path uses a value that is None on it as something else, or a name that is not bound")
                self.ob("crash", False, fi.qual, ":".join(str(x) for x in v[2][1]), f"{'a name that is not bound is read' if v[1] == 'NameError' else 'a value that is None is used as something else'} ({p.cond_text()})")
            self.absent(p, fi)
        return out

    def absent(self, p, fi):
        """The graph raises KeyError for roots and edge ends that are no nodes of it, ValueError for a node that is added again."""
        made = {}
        for e in p.events:
            if e.kind == "new" and any(c.name in ("BaseNode", "PyPIDistribution") for c in self.repo.mro(self.repo.classes[e.fn])) if e.fn in self.repo.classes else False:
                made[e.recv] = False
            elif e.kind == "graph" and e.fn == "add_node" and e.arg("node", 0) in made:
                x = e.arg("node", 0)
                if made[x] == "added" and not p.evs("graph", "remove_node"):
                    self.rule("crash", "no path adds a node twice, or links one that was not added")
                    self.ob("crash", False, fi.qual, e.where, f"the new {pretty(x)} is added to the graph twice ({p.cond_text()})")
                made[x] = "added"
            elif e.kind == "graph" and e.fn in ("add_edge", "add_root"):
                for x in (e.arg("node", 0),) if e.fn == "add_root" else (e.arg("source", 0), e.arg("destination", 1)):
                    if x in made and made[x] is False:
                        self.rule("crash", "no path adds a node twice, or links one that was not added")
                        self.ob("crash", False, fi.qual, e.where, f"the new {pretty(x)} is linked though it was not added to the graph ({p.cond_text()})")
            elif e.kind in ("call", "recurse") and e.fn != "ModuleGraph._process_import_list":
                vals = e.args.values() if isinstance(e.args, dict) else e.args or ()
                for x in [x for x in made if any(x == v or v is not None and x in walk(v) for v in vals)]:
                    made[x] = made[x] or "given away"


class P:
    """One analysed path with a query interface."""

    def __init__(self, eng, path):
        self.eng, self.path, self.st = eng, path, path.st
        self.kind, self.value = path.kind, path.value
        self.events = path.st.events

    def evs(self, kind=None, fn=None, pred=None):
        return [e for e in self.events
                if (kind is None or e.kind == kind or (isinstance(kind, tuple) and e.kind in kind))
                and (fn is None or e.fn == fn or (isinstance(fn, (tuple, set, frozenset)) and e.fn in fn))
                and (pred is None or pred(e))]

    def ask(self, f):
        """Truth of a condition on this path: True, False or None (not determined)."""
        res = {b for b, _ in f(self.st.fork()) if not isinstance(b, Abr)}
        return res.pop() if len(res) == 1 else None

    def isinst(self, t, *classes):
        cl = [c if isinstance(c, tuple) else (("cls", c) if c in self.eng.repo.classes else ("ext", c)) for c in classes]
        return self.ask(lambda s: self.eng.isinst(t, cl, s))

    def truthy(self, t):
        return self.ask(lambda s: self.eng.truth(t, s))

    def eq(self, a, b):
        return self.ask(lambda s: self.eng.eq(a, b, s))

    def is_none(self, t):
        return self.eq(t, NONE)

    def member(self, a, b):
        f = self.st.facts.get(("in", a, b))
        if f is not None:
            return f
        return self.ask(lambda s: self.eng.member(a, b, s, None, None))

    def fact(self, *key):
        return self.st.facts.get(tuple(key))

    def empty_iter(self, t):
        return any(k[0] == "nonempty" and k[1] == t and v is False for k, v in self.st.facts.items())

    def deep(self, t):
        return self.eng.deep(t, self.st)

    def cls(self, t):
        return self.eng.typeof(t, self.st)

    def where(self):
        for e in reversed(self.events):
            if e.pos[1]:
                return e.where
        fi = self.path.entry
        import os
        return f"{os.path.relpath(fi.module.path, self.eng.repo.root)}:{fi.node.lineno}"

    def cond_text(self, limit=6):
        out = []
        for k, v in list(self.st.facts.items()):
            if k[0] in ("nonempty", "numeq"):
                continue
            out.append(("" if v else "not ") + pretty(k, 4))
        for k, v in self.st.types.items():
            if k[0] in ("sym",) and len(v) <= 3 and k != SELF:
                out.append(f"{pretty(k)} is {'/'.join(sorted(v))}")
        return "; ".join(out[:limit])


def term_consistent(p, cond):
    return cond is not False


def text_of(p, t):
    """(text, asname) of an imported-name value; a plain string has no alias attribute."""
    if t is not None and t[0] == "strobj":
        return (t[2][0] if t[2] else C("")), p.st.heap.get((t, "asname"), p.st.heap.get((t, "_asname")))
    return t, None


def proj(p, v, path):
    """Component of a structured value; `path` is a list of indexes and field names."""
    for s in path:
        if v is None:
            return None
        if isinstance(s, int):
            if v[0] == "tup":
                v = v[1][s] if s < len(v[1]) else None
            elif v[0] == "rec":
                v = v[2][s][1] if s < len(v[2]) else None
            elif v in p.st.cont:
                it = p.st.cont[v]
                v = it[s].val if s < len(it) and all(i.mode == "item" for i in it) else None
            else:
                v = ("item", v, C(s))
        else:
            if v[0] == "rec":
                v = dict(v[2]).get(s)
            elif (v, s) in p.st.heap:
                v = p.st.heap[(v, s)]
            else:
                v = ("attr", v, s)
    return v


def slot_path(t, base):
    """[index | field] leading from `base` to the projection term `t`, or None."""
    path = []
    while t != base:
        if t[0] == "item" and is_const(t[2]) and isinstance(t[2][2], int):
            path.append(t[2][2])
        elif t[0] == "attr":
            path.append(t[2])
        else:
            return None
        t = t[1]
    return path[::-1]


def class_ok(p, t, real, isreal):
    """Is `type(t) is real` consistent with the path's facts? `isreal(name)` resolves class names."""
    for k, v in p.st.facts.items():
        if k[0] == "isinst" and len(k) == 3 and k[1] == t and isinstance(k[2], str):
            c = isreal(k[2])
            if c is not None and issubclass(real, c) != v:
                return False
            if k[2] == "None" and v:
                return False
        if k[0] == "eq" and len(k) == 3:
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a[0] == "call" and a[1] == "type" and a[2] == (t,) and b[0] == "ext":
                    c = isreal(b[1])
                    if c is not None and (c is real) != v:
                        return False
    S = p.st.types.get(t)
    if S is not None:
        ok = False
        for n in S:
            c = isreal(n.rstrip("+"))
            if c is None or issubclass(real, c):
                ok = True
        if not ok:
            return False
    for tt in ("type",):
        d = p.st.dom.get(("call", tt, (t,), (), 0))
        if d is not None:
            cs = {isreal(x[1]) for x in d[1] if x[0] == "ext"}
            if (real in cs) != (d[0] == "in"):
                return False
    return True


# -- roles: functions the properties talk about ------------------------------------
ROLE_PARAMS = {
    "_find_or_load_module": ("importing_module", "module_name", "link_missing_to_parent"),
    "_process_import": ("importing_module", "import_info"),
    "_process_namelist": ("importing_module", "imported_module", "import_info"),
    "_process_import_list": ("node", "imports"),
    "_load_script": ("script_path",),
}


def graph_method(repo, name):
    """Method of ModuleGraph by name; a renamed private method is recognised by its parameters."""
    fi = repo.func(f"_modulegraph:ModuleGraph.{name}")
    if fi is not None:
        return fi
    want = ROLE_PARAMS.get(name)
    ci = repo.classes.get("ModuleGraph")
    if ci is not None and want:
        cands = [m for m in ci.methods.values()
                 if tuple([p for p in m.params() if p != "self"] + [p.arg for p in m.node.args.kwonlyargs]) == want and m.name.startswith("_")]
        if len(cands) == 1:
            return cands[0]
    raise AnalysisBroken(f"ModuleGraph.{name} not found")


def q(repo, name):
    fi = graph_method(repo, name)
    return f"ModuleGraph.{fi.name}"


def ws_attr(repo):
    """Name of the attribute that holds the pending work: the list whose popped entries are called."""
    ci = repo.classes.get("ModuleGraph")
    if ci is None:
        raise AnalysisBroken("class ModuleGraph not found")
    for m in ci.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.While):
                for c in ast.walk(n):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("pop", "popleft") \
                            and isinstance(c.func.value, ast.Attribute) and isinstance(c.func.value.value, ast.Name) and c.func.value.value.id == "self":
                        return c.func.value.attr
    if any(isinstance(n, ast.Attribute) and n.attr == "_work_stack" for m in ci.methods.values() for n in ast.walk(m.node)):
        return "_work_stack"
    raise AnalysisBroken("work stack attribute not found")


WS0 = ("sym", "pending-work")


def graph_init(graph=SELF, stack=True):
    """Initial state: the graph's work stack holds an unknown amount of pending work."""
    def init(eng, st, fr):
        st.types[graph] = frozenset(["ModuleGraph"])
        if stack:
            wa = ws_attr(eng.repo)
            o = eng.new_obj(st, "list", [Item("seg", WS0)])
            st.heap[(graph, wa)] = o
    return init


def stack_of(p, graph=SELF):
    """Contributions on the work stack at the end of a path (bottom first), normalised."""
    wa = ws_attr(p.eng.repo)
    o = p.st.heap.get((graph, wa))
    if o is None or o not in p.st.cont:
        return None
    return [norm_work(p, i) for i in p.st.cont[o]]


class Work:
    __slots__ = ("kind", "target", "args", "item", "loops")

    def __init__(self, kind, target, args, item):
        self.kind, self.target, self.args, self.item, self.loops = kind, target, args, item, item.loops

    def __repr__(self):
        return f"<{self.kind} {self.target} {[pretty(a) for a in self.args]}>"


def norm_work(p, item):
    """A pending-work entry as (target, args): tuples, partials, closures are looked through."""
    if item.mode == "seg":
        return Work("seg", item.val, (), item)
    v = item.val
    if v[0] == "tup" and len(v[1]) == 2:
        f, a = v[1]
        if a[0] == "tup":
            args = a[1]
        elif a in p.st.cont:
            args = tuple(i.val for i in p.st.cont[a])
        else:
            args = (("star", a),)
        if f[0] == "partial":
            f, args = f[1], tuple(f[2]) + tuple(args)
        return Work("call", target_name(f), recv_args(f, args), item)
    if v[0] == "partial":
        return Work("call", target_name(v[1]), recv_args(v[1], tuple(v[2])), item)
    if v[0] == "clo":
        n, cfr = p.eng._closures[v[1]]
        if isinstance(n, ast.Lambda):
            st = p.st.fork()
            before = len(st.events)
            old, p.eng.policy.opaque_pred = p.eng.policy.opaque_pred, (lambda fi: fi.cls is not None and fi.cls.name == "ModuleGraph")
            try:
                p.eng.call_closure(v, [], [], st, n)
            finally:
                p.eng.policy.opaque_pred = old
            for e in st.events[before:]:
                if e.kind in ("call", "dyn"):
                    a = tuple(e.args.values()) if isinstance(e.args, dict) else tuple(e.args)
                    return Work("call", e.fn if e.kind == "call" else target_name(e.recv), a, item)
    return Work("other", v, (), item)


def target_name(f):
    if f[0] == "bm":
        return f[2].split(":", 1)[1]
    if f[0] == "func":
        return f[1].split(":", 1)[1]
    return f


def recv_args(f, args):
    if f[0] == "bm":
        return (f[1],) + tuple(args)
    return tuple(args)


def item_loops(item):
    return item.loops


def depinfo(opt, glob, fromlist, name):
    return ("rec", "DependencyInfo", (("is_optional", opt), ("is_global", glob), ("in_fromlist", fromlist), ("imported_as", name)))


DEFAULT_DEP = depinfo(FALSE, TRUE, FALSE, NONE)


def rec_field(t, f):
    if t is not None and t[0] == "rec":
        return dict(t[2]).get(f)
    return None


# -- vocabulary of the graph builder --------------------------------------------------
class Names:
    """Qualified names of the builder's internal functions, found by role."""

    def __init__(self, repo):
        self.repo = repo
        self.folm = q(repo, "_find_or_load_module")
        self.pil = q(repo, "_process_import_list")
        self.pi = q(repo, "_process_import")
        self.pnl = q(repo, "_process_namelist")

    @property
    def opaque(self):
        return {self.folm, self.pil}

    @property
    def loaders(self):
        """Methods that locate a name without asking the graph for it first."""
        out = set()
        for name, fi in self.repo.classes["ModuleGraph"].methods.items():
            qual = "ModuleGraph." + name
            if qual in (self.folm, self.pil, self.pi, self.pnl) or not name.startswith("_"):
                continue
            if any(isinstance(x, ast.Attribute) and x.attr == "find_spec" or isinstance(x, ast.Name) and x.id == "find_spec" for x in ast.walk(fi.node)):
                out.add(qual)
        return out


def calls(p, *names):
    return [e for e in p.events if e.kind in ("call", "recurse", "graph", "query", "dyn") and e.fn in names]


def edges(p):
    return [(e.arg("source", 0), e.arg("destination", 1), e.arg("edge_attributes", 2), e) for e in p.evs("graph", "add_edge")]


def same(p, a, b):
    return a == b or (a is not None and b is not None and p.eq(a, b) is True)


def node_for(p, n, t, name):
    """Is `t` the graph's node for `name` on this path (looked up or loaded)?"""
    for e in p.events:
        if e.ret == t and e.kind in ("call", "recurse") and e.fn == n.folm and same(p, e.args.get("module_name"), name):
            return True
        if e.ret == t and e.kind == "query" and e.fn == "find_node" and same(p, e.arg("node", 0), name) and p.is_none(t) is False:
            return True
    return False


def node_name(p, t):
    v = p.st.heap.get((t, "name"))
    if v is None:
        v = p.st.heap.get((t, "identifier"))
    return v if v is not None else ("attr", t, "name")


def attrs_ok(p, a, info, fromlist, name):
    """Do edge attributes `a` carry the optional/global flags of report `info`, and the given rest?"""
    if a is None or a[0] != "rec" or a[1] != "DependencyInfo":
        return f"edge attributes are {pretty(a) if a else None}"
    f = dict(a[2])
    for n in ("is_optional", "is_global"):
        if f[n] != ("attr", info, n):
            return f"{n} of the edge is {pretty(f[n])}, not that of the import"
    if p.truthy(f["in_fromlist"]) is not fromlist:
        return f"in_fromlist of the edge is {pretty(f['in_fromlist'])}"
    if name is not None and not same(p, f["imported_as"], name):
        return f"alias of the edge is {pretty(f['imported_as'])}, not {pretty(name)}"
    return None


def is_default(a):
    return a == DEFAULT_DEP


def mutations(p, n=None):
    """Events that change the graph, its roots or the pending work."""
    out = []
    for e in p.events:
        if e.kind == "graph" and e.fn in ("add_node", "add_edge", "add_root", "remove_node", "remove_edge"):
            out.append(e)
        elif n is not None and e.kind in ("call", "recurse") and e.fn in (n.folm, n.pil):
            out.append(e)
        elif e.kind == "mut" and e.recv in p.st.cont and e.recv == p.st.heap.get((SELF, ws_attr(p.eng.repo))):
            out.append(e)
    return out


def is_parent_name(p, t, name):
    """Is t the name of the package containing `name` (text before the last dot)?"""
    if t is None:
        return False
    if t[0] == "item" and t[2] == C(0):
        b = t[1]
        if b[0] == "call" and b[1].split(".")[-1] == "split_package" and b[2] and same(p, b[2][0], name):
            return True
        if b[0] == "m" and b[1] in ("rpartition", "rsplit") and b[3][0] == C(".") and (b[1] == "rpartition" or b[3][1:] == (C(1),)):
            r = b[2]
            if r == name or (r[0] == "m" and r[1] == "lstrip" and r[2] == name):
                return True
    return False


def has_parent(p, name, t=None):
    """Does `name` have a containing package on this path: True, False, None (not asked)?"""
    res = None
    cands = set()
    for k in list(p.st.facts) + list(p.st.types) + list(p.st.dom):
        for x in walk(k):
            if x and x[0] == "item" and is_parent_name(p, x, name):
                cands.add(x)
    for x in cands:
        if x[1][0] == "call":
            v = p.is_none(x)
            if v is not None:
                res = not v
                continue
        v = p.truthy(x)
        if v is not None:
            res = v
    if res is None:
        v = p.member(C("."), name)
        if v is not None:
            res = v
    return res
