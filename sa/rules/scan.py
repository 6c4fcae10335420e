"""C01-C04: what the source and bytecode scanners report."""
import ast
import itertools
import re

from ..domain import Values
from ..engine import Abr
from ..rulekit import *  # noqa: F401,F403
from ..rulekit import C, Check, P, cat, class_ok, mentions, pretty, proj, slot_path, text_of, walk


def ast_class(name):
    c = getattr(ast, name.rsplit(".", 1)[-1], None)
    return c if isinstance(c, type) else None


def ast_fields():
    """{concrete node class: {field: (element class, is list)}} from the grammar of this Python."""
    out = {}
    for n, c in sorted(vars(ast).items()):
        if isinstance(c, type) and issubclass(c, ast.AST) and c.__doc__ and c.__subclasses__() == [] and c.__module__ in ("ast", "_ast"):
            m = re.match(re.escape(n) + r"\((.*)\)$", c.__doc__.replace("\n", " ").strip())
            fields = {}
            if m and m.group(1).strip():
                for part in m.group(1).split(","):
                    ty, f = part.split()
                    fields[f] = (ty.rstrip("*?"), ty.endswith("*"))
            if c._fields or n in ("Pass", "Break", "Continue"):
                out[c] = fields
    return out


STMT_HOLDERS = ("stmt", "excepthandler", "match_case", "mod")


def concrete(elem):
    base = getattr(ast, elem)
    return [c for c in ast_fields() if issubclass(c, base)] or [base]


class ScanModel:
    """Structure of the work-list scan, read off its paths."""

    def __init__(self, ck):
        fi = ck.repo.func("_ast_tools:extract_ast_info")
        ck.need(fi is not None, "_ast_tools.extract_ast_info not found")
        self.root = ("sym", fi.params()[0])
        eng = ck.engine()
        self.eng = eng
        self.paths = ck.run(eng, fi)
        cands = {}
        for p in self.paths:
            for e in p.evs("yield"):
                for t in walk(e.args[0]):
                    if t and t[0] == "attr" and len(t) == 3 and t[2] in ("names", "module", "level") and any(x and x[0] == "popped" for x in walk(t[1])):
                        cands[t[1]] = cands.get(t[1], 0) + 1
        ck.need(cands, "the scan reports no import found through its work list")
        self.P0 = max(cands, key=cands.get)
        self.popped = next(t for t in walk(self.P0) if t and t[0] == "popped")
        self.node_path = slot_path(self.P0, self.popped)
        ck.need(self.node_path is not None, "cannot tell which part of a work item is the node")
        self.queue = self.popped[1]

    def where(self, p):
        evs = [e for e in p.events if e.kind in ("yield", "mut") and e.pos[1]]
        return evs[-1].where if evs else p.where()

    def pushes(self, p):
        return [i for i in p.st.cont.get(self.queue, ()) if not (i.mode == "seg" and i.val[0] == "prev")]

    def in_scan(self, p):
        """Does the path contain an iteration of the scan loop?"""
        return any(e.kind == "pop" and e.recv == self.queue for e in p.events)

    def child_sources(self, p):
        """Every way this path enumerates children of the node: (element term, fields covered)."""
        out = []
        seen = set()

        def add(src):
            if src in seen:
                return
            seen.add(src)
            if src == ("call", "ast.iter_child_nodes", (self.P0,), (), 0) or (src[0] == "call" and src[1] == "ast.iter_child_nodes" and src[2] == (self.P0,)):
                out.append((src, ("elem", src, 0), None, None))
            elif src[0] == "item" and src[2] == C(1) and src[1][0] == "elem" and src[1][1][0] == "call" and src[1][1][1] == "ast.iter_fields" and src[1][1][2] == (self.P0,):
                out.append((src, ("elem", src, 0), ("item", src[1], C(0)), None))
            elif src[0] == "attr" and src[1] == self.P0:
                out.append((src, ("elem", src, 0), None, src[2]))
            elif src[0] == "item" and src[1][0] == "call" and False:
                pass
        for k in p.st.facts:
            if k[0] == "nonempty":
                add(k[1])
        for i in self.pushes(p):
            for l in i.loops:
                add(l)
            if i.mode == "seg":
                add(i.val)
        return out


def covers(src, p, f):
    """Does the source's generic element range over field f on this path?"""
    _, _, name, field = src
    if field is not None:
        return field == f
    if name is not None:
        d = p.st.dom.get(name)
        if d is None:
            return True
        return (C(f) in d[1]) == (d[0] == "in")
    return True


def elem_consistent(p, N, ecls):
    return class_ok(p, N, ecls, ast_class)


def push_covers(m, p, item, f, ecls):
    """Is the pushed node the generic element of field f (all elements of class ecls)?"""
    if item.mode == "seg":
        return False
    N = proj(p, item.val, m.node_path)
    if N is None:
        return False
    for src in m.child_sources(p):
        if N == src[1] and covers(src, p, f):
            for kind, key, val in item.conds:
                if kind == "fact" and key[0] == "isinst" and key[1] == N:
                    c = ast_class(key[2])
                    if c is not None and issubclass(ecls, c) == val:
                        continue
                    return False
                if kind == "dom" and key == src[2]:
                    if (C(f) in val[1]) != (val[0] == "in"):
                        return False
                    continue
                if kind == "type" and key == N:
                    continue
                return False
            return True
    return False


def field_vacuous(m, p, f, ecls):
    """This path says nothing about field f: its iteration is empty or concerns another field/child class."""
    srcs = m.child_sources(p)
    cov = [s for s in srcs if covers(s, p, f)]
    for s in srcs:
        if s[2] is not None and not covers(s, p, f):
            return True
    for s in cov:
        if p.st.facts.get(("nonempty", s[0])) is False:
            return True
        if s[2] is not None and p.st.facts.get(("nonempty", s[0][1][1])) is False:
            return True
        if s[2] is not None and (p.fact("isinst", s[0], "list") is False) and True:
            return True
        if not elem_consistent(p, s[1], ecls):
            return True
    # iter_fields itself found empty
    for k, v in p.st.facts.items():
        if k[0] == "nonempty" and v is False and k[1][0] == "call" and k[1][1] in ("ast.iter_fields", "ast.iter_child_nodes") and k[1][2] == (m.P0,):
            return True
    a = ("attr", m.P0, f)
    if p.st.facts.get(("nonempty", a)) is False or p.st.facts.get(("truth", a)) is False:
        return True
    return False


FLAGS = ("is_in_function", "is_in_conditional", "is_in_tryexcept")


def yields(m, p):
    return [e for e in p.evs("yield") if e.args[0][0] == "rec" and e.args[0][1] == "ImportInfo"]


def C01(ck):
    m = ScanModel(ck)
    R = ck.rule
    R("start", "the scan starts with the tree it was given and ends only when no node is left to visit")
    R("traverse", "for every statement class and every statement-bearing field, each child is queued exactly once")
    R("import", "`import a, b as c` gives one report per alias, with its name and alias, absolute, without names")
    R("from", "`from m import ...` gives one report with module, level, names with aliases, star separated from the names")
    R("once", "no report is made for anything else, and no path of the scan raises")
    C_ = "_ast_tools.extract_ast_info"
    K = {c: {f: e for f, (e, lst) in fs.items() if e in STMT_HOLDERS and lst} for c, fs in ast_fields().items()}
    holders = {c: fs for c, fs in K.items() if fs}
    ck.need(len(holders) >= 15, "statement classes of the grammar not recognised")
    for p in m.paths:
        w = m.where(p)
        if p.kind == "raise":
            ck.ob("once", False, C_, w, f"the scan can raise {pretty(p.value)} ({p.cond_text()})")
            continue
        scan = m.in_scan(p)
        init = [i for i in m.pushes(p) if not i.loops and not mentions(i.val, m.popped)]
        firsts = [e for e in p.events if e.kind in ("mut", "setattr", "new") and e.recv == m.queue]
        # termination: the queue is empty when the scan returns
        ck.ob("start", p.truthy(m.queue) is False or any(e.kind == "pop" and e.recv == m.queue for e in p.events) and p.truthy(m.queue) is False, C_, w,
              f"the scan can end while nodes are still waiting ({p.cond_text()})")
        if not scan:
            if not any(k[0] == "nonempty" and v is False for k, v in p.st.facts.items()) and p.truthy(m.queue) is not False:
                ck.ob("start", False, C_, w, "a path does not scan at all")
            continue
        # traversal
        for c, fs in holders.items():
            if not class_ok(p, m.P0, c, ast_class):
                continue
            for f, elem in fs.items():
                for ecls in concrete(elem):
                    if field_vacuous(m, p, f, ecls):
                        continue
                    n = sum(push_covers(m, p, i, f, ecls) for i in m.pushes(p))
                    if n == 1:
                        broken = [e for e in p.events if e.kind == "loopend" and e.fn != "exhausted" and e.recv in [s[0] for s in m.child_sources(p)] + [s[0][1][1] for s in m.child_sources(p) if s[2] is not None]]
                        ck.ob("traverse", not broken, f"{C_}:{c.__name__}.{f}", w, f"the children of {c.__name__}.{f} are not all queued (loop left early)")
                    else:
                        ck.ob("traverse", False, f"{C_}:{c.__name__}.{f}", w,
                              f"{ecls.__name__} in {c.__name__}.{f} is queued {n} times ({p.cond_text()})")
        ys = yields(m, p)
        other = [e for e in p.evs("yield") if e not in ys]
        for e in other:
            ck.ob("once", False, C_, e.where, f"something other than an import report is produced: {pretty(e.args[0])}")
        is_imp = class_ok(p, m.P0, ast.Import, ast_class)
        is_from = class_ok(p, m.P0, ast.ImportFrom, ast_class)
        only_imp = is_imp and not any(class_ok(p, m.P0, c, ast_class) for c in K if c is not ast.Import)
        only_from = is_from and not any(class_ok(p, m.P0, c, ast_class) for c in K if c is not ast.ImportFrom)
        if ys:
            ck.ob("once", only_imp or only_from, C_, ys[0].where, "an import is reported for a node that is not an import statement")
        names = ("attr", m.P0, "names")
        alias = ("elem", names, 0)
        if is_imp and not (only_from):
            if not p.empty_iter(names):
                ok = len(ys) == 1 and names in ys[0].loops
                ck.ob("import", ok, C_ + ":import", w, f"an alias of an `import` statement is reported {len(ys)} times ({p.cond_text()})")
                early = [e for e in p.events if e.kind == "loopend" and e.recv == names and e.fn != "exhausted"]
                ck.ob("import", not early, C_ + ":import", w, "the remaining aliases of an `import` statement are skipped")
                if ok and only_imp:
                    v = ys[0].args[0]
                    t, a = text_of(p, rec_field(v, "import_module"))
                    ck.ob("import", t == ("attr", alias, "name"), C_ + ":import", ys[0].where, f"reported module is {pretty(t)}, not the imported name")
                    ck.ob("import", a == ("attr", alias, "asname"), C_ + ":import", ys[0].where, f"reported alias is {pretty(a) if a else None}, not the `as` name")
                    ck.ob("import", p.eq(rec_field(v, "import_level"), C(0)) is True, C_ + ":import", ys[0].where, "an `import` statement is not absolute")
                    ck.ob("import", empty_coll(p, rec_field(v, "import_names")) and p.truthy(rec_field(v, "star_import")) is False, C_ + ":import", ys[0].where,
                          "an `import` statement has no from-list")
        if is_from and not only_imp:
            ck.ob("from", len(ys) == 1 and not ys[0].loops[1:], C_ + ":from", w, f"a `from` statement is reported {len(ys)} times ({p.cond_text()})")
            if len(ys) == 1 and only_from:
                from_report(ck, p, m, ys[0], C_ + ":from")
    # the first entry
    starts = set()
    for p in m.paths:
        for e in p.events:
            if e.kind == "pop" and e.recv == m.queue:
                break
        for i in p.st.cont.get(m.queue, ()):
            pass
    for p in m.paths:
        first = next((e for e in p.events if e.kind == "mut" and e.recv == m.queue), None)
        if first is not None and not first.loops:
            v = first.args[-1] if first.args else None
            if v is not None and first.fn in ("append", "appendleft", "insert", "add", "init", "push"):
                starts.add(proj(p, v, m.node_path))
    if starts:
        ck.ob("start", starts == {m.root}, C_, m.where(m.paths[0]), f"the scan starts with {', '.join(pretty(s) for s in starts if s)}")
    name_splitting(ck)
    ck.instances("traverse", 20)
    ck.instances("import", 2)
    ck.instances("from", 4)


def empty_coll(p, t):
    if t in p.st.cont:
        return not p.st.cont[t]
    return t in (("tup", ()), NONE)


def from_report(ck, p, m, e, cons):
    v = e.args[0]
    mod = ("attr", m.P0, "module")
    t, a = text_of(p, rec_field(v, "import_module"))
    if t == mod:
        ck.ob("from", p.truthy(mod) is True or p.is_none(mod) is False, cons, e.where, "a relative import without module name is reported as 'None'")
    else:
        ck.ob("from", t == C("") and (p.truthy(mod) is False or p.is_none(mod) is True), cons, e.where, f"reported module is {pretty(t)}")
    ck.ob("from", a is None or p.is_none(a) is True, cons, e.where, "the module of a `from` statement has no alias")
    lev = rec_field(v, "import_level")
    ok = lev == ("attr", m.P0, "level") or (p.eq(lev, C(0)) is True and (p.truthy(("attr", m.P0, "level")) is False))
    ck.ob("from", ok, cons, e.where, f"reported level is {pretty(lev)}")
    names = ("attr", m.P0, "names")
    from_names(ck, "from", p, v, names, lambda el: (("attr", el, "name"), ("attr", el, "asname")), cons, e.where)


def star_fact(p, cont, names):
    """Is `*` among the names on this path (True/False/None)?"""
    res = None
    for k, v in p.st.facts.items():
        if k[0] == "in" and k[2] == cont and text_of(p, k[1])[0] == C("*"):
            res = v
    return res


def from_names(ck, rule, p, v, names, parts, cons, where):
    S = rec_field(v, "import_names")
    star = rec_field(v, "star_import")
    cont = p.st.cont.get(S)
    if cont is None:
        ck.ob(rule, False, cons, where, f"reported names are {pretty(S)}")
        return
    real = [i for i in cont if not (i.mode == "seg" and i.val[0] == "prev")]
    el = ("elem", names, 0)
    tname, tas = parts(el)
    if p.empty_iter(names):
        ck.ob(rule, not real, cons, where, "names are reported for an empty list")
        return
    isstar = star_fact(p, S, names)
    if isstar is None:
        isstar = p.eq(tname, C("*"))
    this_star = p.eq(tname, C("*"))
    if this_star is True and not real:
        ck.ob(rule, p.truthy(star) is True, cons, where, "`*` is dropped without marking the star import")
        return
    ok = len(real) == 1
    ck.ob(rule, ok, cons, where, f"each imported name is reported {len(real)} times ({p.cond_text()})")
    early = [e for e in p.events if e.kind == "loopend" and e.recv == names and e.fn != "exhausted"]
    ck.ob(rule, not early, cons, where, "names after some name of the list are not reported")
    for i in real:
        t, a = text_of(p, i.val)
        good = t == tname and i.mode == "item" and names in i.loops + tuple(p.st.loops)
        extra = []
        for kind, key, val in i.conds:
            if kind == "dom" and key == tname and val == ("notin", frozenset([C("*")])):
                continue
            extra.append(key)
        ck.ob(rule, good and not extra, cons, where, f"reported name is {pretty(t)}" + (" under a condition" if extra else ""))
        ck.ob(rule, a == tas, cons, where, f"alias of an imported name is {pretty(a) if a else None}")
        minus = [text_of(p, x)[0] for x in p.st.minus.get(S, ())]
        minus = [y for x in minus for y in (flat(x))]
        removed = C("*") in minus or any(kind == "dom" and key == tname and C("*") in val[1] and val[0] == "notin" for kind, key, val in i.conds) or this_star is False
        ck.ob(rule, all(x == C("*") for x in minus), cons, where, f"names other than `*` are removed: {', '.join(pretty(x) for x in minus)}")
        if isstar is True:
            ck.ob(rule, removed, cons, where, "`*` is reported as an imported name")
            ck.ob(rule, p.truthy(star) is True, cons, where, "a star import is not marked as such")
        elif isstar is False and star_fact(p, S, names) is False:
            ck.ob(rule, p.truthy(star) is False, cons, where, "an import without `*` is marked as star import")
        elif isstar is None:
            ck.ob(rule, removed and p.truthy(star) is not False, cons, where, "whether the list contains `*` is not looked at")


def flat(x):
    if x[0] == "coll":
        return [text for m, v, *_ in x[2] for text in [v[2][0] if v[0] == "strobj" and v[2] else v]]
    if x[0] == "strobj":
        return [x[2][0]]
    if x[0] == "tup":
        return [z for y in x[1] for z in flat(y)]
    return [x]


def name_splitting(ck):
    """create_importinfo on short concrete name lists: the star is separated wherever it stands."""
    fi = next((f for f in ck.repo.all_funcs() if f.name == "create_importinfo"), None)
    if fi is None:
        return
    a, b = ("tup", (("sym", "n1"), ("sym", "a1"))), ("tup", (C("*"), NONE))
    pn = fi.params()
    if len(pn) < 2:
        return
    for label, lst, star in (("n1", (a,), False), ("n1,*", (a, b), True), ("*,n1", (b, a), True), ("*", (b,), True)):
        eng = ck.engine(types={("sym", "n1"): ("str",)})

        def init(e, st, fr):
            st.dom[("sym", "n1")] = ("notin", frozenset([C("*")]))
        try:
            paths = ck.run(eng, fi, label=f"create_importinfo[{label}]", args={pn[1]: ("tup", lst)}, init=init)
        except Exception:       # a signature this rule does not know
            return
        for p in paths:
            v = p.value
            if p.kind != "ret" or v[0] != "rec":
                ck.ob("from", False, "_importinfo.create_importinfo", p.where(), f"names ({label}) give {p.kind} {pretty(v)}")
                continue
            S, st_ = rec_field(v, "import_names"), p.truthy(rec_field(v, "star_import"))
            texts = [text_of(p, i.val)[0] for i in p.st.cont.get(S, ())]
            minus = [y for x in p.st.minus.get(S, ()) for y in flat(x)]
            texts = [t for t in texts if t not in minus]
            instar = p.st.facts.get(("in", C("*"), S))
            if star is False and (instar is True or ("sym", "n1") in [k[1] for k in p.st.facts if k[0] == "eq" and p.st.facts[k]]):
                continue
            if star and instar is False:
                continue
            ck.ob("from", st_ is star, "_importinfo.create_importinfo", p.where(), f"star flag for names ({label}) is {st_}")
            ck.ob("from", sorted(map(repr, texts)) == sorted(map(repr, [("sym", "n1")] if "n1" in label else [])), "_importinfo.create_importinfo", p.where(),
                  f"names ({label}) are reported as {[pretty(t) for t in texts]}")


def expected_flags(c, f):
    """(in function, in conditional, in try) a child in field f of class c gets from c: True or None (as c)."""
    if c in (ast.FunctionDef, ast.AsyncFunctionDef):
        return (True, None, None)
    if c is ast.If:
        return (None, True, None)
    if c in (ast.Try, getattr(ast, "TryStar", ast.Try)):
        return (None, None, None if f == "finalbody" else True)
    return (None, None, None)


def eval_under(p, t, assignment):
    """Truth of t when the given terms have the given truth values: True/False/None."""
    st = p.st.fork()
    for k, v in assignment.items():
        f = st.facts.get(("truth", k))
        if f is not None and f != v:
            return "infeasible"
        S = st.types.get(k)
        st.types[k] = frozenset(["bool"])
        st.facts[("truth", k)] = v
    if t is None:
        return None
    res = {b for b, _ in p.eng.truth(t, st) if not isinstance(b, Abr)}
    return res.pop() if len(res) == 1 else None


def C02(ck):
    m = ScanModel(ck)
    R = ck.rule
    R("slots", "the flags reported with an import are the flags carried with its node on the work list")
    R("start", "the scan starts with all flags off")
    R("flags", "each child is queued with exactly the flags its parent statement adds to the parent's own, for every flag combination")
    R("optional", "a report is optional exactly when one of its flags is set, global exactly when not in a function")
    R("edge", "edge attributes copy optional/global from the report")
    C_ = "_ast_tools.extract_ast_info"
    slots = [None, None, None]
    for p in m.paths:
        for e in yields(m, p):
            for n, f in enumerate(FLAGS):
                t = rec_field(e.args[0], f)
                sp = slot_path(t, m.popped) if t is not None else None
                if sp is None and p.truthy(t) is not None and is_slot_split(p, m, t):
                    continue
                ck.ob("slots", sp is not None and sp != m.node_path, f"{C_}:{f}", e.where, f"{f} of a report is {pretty(t) if t else None}, not a flag carried with the node")
                if sp is None:
                    continue
                if slots[n] is None:
                    slots[n] = sp
                ck.ob("slots", slots[n] == sp, f"{C_}:{f}", e.where, f"{f} is taken from different parts of the work item")
    ck.need(any(slots), "no flag is carried on the work list")
    for n, f in enumerate(FLAGS):
        ck.ob("slots", slots.count(slots[n]) == 1 or slots[n] is None, f"{C_}:{f}", m.where(m.paths[0]), "two flags are reported from the same part of the work item")
    terms = [proj(m.paths[0], m.popped, s) if s else None for s in slots]
    K = {c: {f: e for f, (e, lst) in fs.items() if e in STMT_HOLDERS and lst} for c, fs in ast_fields().items()}
    for p in m.paths:
        if not m.in_scan(p):
            continue
        w = m.where(p)
        for c, fs in K.items():
            if not fs or not class_ok(p, m.P0, c, ast_class):
                continue
            for f, elem in fs.items():
                exp = expected_flags(c, f)
                for ecls in concrete(elem):
                    if field_vacuous(m, p, f, ecls):
                        continue
                    for i in m.pushes(p):
                        if not push_covers(m, p, i, f, ecls):
                            continue
                        for bits in itertools.product((False, True), repeat=3):
                            asg = {t: b for t, b in zip(terms, bits) if t is not None}
                            for n in range(3):
                                if slots[n] is None:
                                    continue
                                got = eval_under(p, proj(p, i.val, slots[n]), asg)
                                if got == "infeasible":
                                    continue
                                want = True if exp[n] else bits[n]
                                ck.ob("flags", got is want, f"{C_}:{c.__name__}.{f}", w,
                                      f"a statement in {c.__name__}.{f} gets {FLAGS[n]}={got} where the enclosing statement has "
                                      f"{dict(zip(FLAGS, bits))} (expected {want})")
    for p in m.paths:
        first = next((e for e in p.events if e.kind == "mut" and e.recv == m.queue), None)
        if first is not None and not first.loops and first.args:
            for n in range(3):
                if slots[n] is not None:
                    t = proj(p, first.args[-1], slots[n])
                    ck.ob("start", t is not None and p.truthy(t) is False, f"{C_}:{FLAGS[n]}", first.where, f"{FLAGS[n]} is not off at module level")
    for p in m.paths:
        for e in p.events:
            pass
    optional_rule(ck)
    edge_rule(ck)
    ck.instances("flags", 200)
    ck.instances("optional", 16)


def is_slot_split(p, m, t):
    return False


def flag_rec():
    fl = [("sym", "f0"), ("sym", "f1"), ("sym", "f2")]
    rec = ("rec", "ImportInfo", (("import_module", ("sym", "mod")), ("import_level", C(0)), ("import_names", ("sym", "names")), ("star_import", FALSE)) + tuple(zip(FLAGS, fl)))
    return fl, rec


def check_attrs(ck, rule, paths, fl, get, cons):
    """get(p) -> {label: (term, function of flags)} evaluated under all 8 flag values."""
    for p in paths:
        if p.kind != "ret":
            ck.ob(rule, False, cons, p.where(), f"raises {pretty(p.value)}")
            continue
        for bits in itertools.product((False, True), repeat=3):
            asg = dict(zip(fl, bits))
            for label, (t, fn) in get(p).items():
                got = eval_under(p, t, asg)
                if got == "infeasible":
                    continue
                want = fn(*bits)
                ck.ob(rule, got is want, f"{cons}:{label}", p.where(), f"{label} is {got} for in-function={bits[0]}, conditional={bits[1]}, try={bits[2]} (expected {want})")


OPT = {"is_optional": lambda a, b, c: a or b or c, "is_global": lambda a, b, c: not a}


def optional_rule(ck):
    ci = ck.repo.classes.get("ImportInfo")
    ck.need(ci is not None, "class ImportInfo not found")
    for name, fn in OPT.items():
        fi = ck.repo.find_method(ci, name)
        if fi is None:
            continue
        fl, rec = flag_rec()
        eng = ck.engine(types={x: ("bool",) for x in fl})
        paths = ck.run(eng, fi, args={fi.params()[0]: rec}, label=f"ImportInfo.{name}")
        check_attrs(ck, "optional", paths, fl, lambda p: {name: (p.value, fn)}, "_importinfo.ImportInfo")


def edge_rule(ck):
    fi = ck.repo.func("_depinfo:from_importinfo")
    ck.need(fi is not None, "_depinfo.from_importinfo not found")
    fl, rec = flag_rec()
    pn = fi.params()
    eng = ck.engine(types={x: ("bool",) for x in fl})
    paths = ck.run(eng, fi, args={pn[0]: rec}, label="from_importinfo")
    check_attrs(ck, "edge", paths, fl, lambda p: {n: (rec_field(p.value, n), fn) for n, fn in OPT.items()}, "_depinfo.from_importinfo")
    for p in paths:
        if p.kind == "ret":
            ck.ob("edge", rec_field(p.value, "in_fromlist") == ("sym", pn[1]), "_depinfo.from_importinfo:in_fromlist", p.where(), "in_fromlist is not the one given")
            ck.ob("edge", rec_field(p.value, "imported_as") == ("sym", pn[2]), "_depinfo.from_importinfo:imported_as", p.where(), "the alias is not the one given")


# ---------------------------------------------------------------------------- bytecode
VERSIONS = ((3, 10), (3, 11), (3, 12), (3, 13), (3, 14))
VI = ("ext", "sys.version_info")


def versions(p):
    """Interpreter versions consistent with the version tests of the path."""
    out = []
    for v in VERSIONS:
        ok = True
        for k, val in p.st.facts.items():
            if k[0] == "cmp" and len(k) == 4:
                a, b = ver_val(k[2], v), ver_val(k[3], v)
                if a is None or b is None or type(a) is not type(b):
                    continue
                ok = ok and ((a < b if k[1] == "<" else a <= b) == val)
            elif k[0] == "eq" and len(k) == 3:
                a, b = ver_val(k[1], v), ver_val(k[2], v)
                if a is not None and b is not None and (mentions(k[1], VI) or mentions(k[2], VI)):
                    ok = ok and ((a == b) == val)
        if ok:
            out.append(v)
    return out


def ver_val(t, v):
    full = v + (0, "final", 0)
    if t == VI:
        return full
    if t[0] == "slice" and t[1] == VI:
        return full[: v_int(t[3])]
    if t[0] == "item" and t[1] == VI:
        return full[t[2][2]]
    if t[0] == "attr" and t[1] == VI:
        return {"major": v[0], "minor": v[1]}.get(t[2])
    if t[0] == "tup" and all(x[0] == "c" for x in t[1]):
        return tuple(x[2] for x in t[1])
    if t[0] == "c" and t[1] == "int":
        return t[2]
    return None


def v_int(x):
    if x is None or x == NONE:
        return None
    return x[2] if isinstance(x, tuple) else x


def reaches(repo, fi, test, seen=None):
    """Does fi, or a package function it names, contain a node satisfying test?"""
    seen = seen if seen is not None else set()
    if fi.qual in seen:
        return False
    seen.add(fi.qual)
    for n in ast.walk(fi.node):
        if test(n):
            return True
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Name):
            r = repo.lookup(fi.module, n.id)
            if r and r[0] == "func" and reaches(repo, r[1], test, seen):
                return True
    return False


def is_dis(n):
    return isinstance(n, ast.Attribute) and n.attr in ("get_instructions", "Bytecode") or isinstance(n, ast.Name) and n.id in ("get_instructions",)


class ByteModel:
    def __init__(self, ck):
        repo = ck.repo
        outer = repo.func("_bytecode_tools:extract_bytecode_info")
        ck.need(outer is not None, "_bytecode_tools.extract_bytecode_info not found")
        single = repo.func("_bytecode_tools:_extract_single")
        if single is None:
            called = [n.func.id for n in ast.walk(outer.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)]
            c = []
            for n in called:
                r = repo.lookup(outer.module, n)
                if r and r[0] == "func" and reaches(repo, r[1], is_dis):
                    c.append(r[1])
            ck.need(len(c) == 1, "the function that scans one code object was not found")
            single = c[0]
        self.outer, self.single = outer, single
        ck.need(len(single.params()) >= 2, "the scanner of one code object has an unknown signature")
        self.code = single.params()[0]
        eng = ck.engine(opaque={single.name}, types={("sym", outer.params()[0]): ("types.CodeType+",)})
        self.opaths = ck.run(eng, outer)
        eng = ck.engine()
        self.ipaths = ck.run(eng, single)
        self.root = ("sym", outer.params()[0])
        self.analyse_outer(ck)
        self.C = f"_bytecode_tools.{outer.name}"
        self.S = f"_bytecode_tools.{single.name}"

    def call(self, p):
        return [e for e in p.evs("call", fn=self.single.name)]

    def analyse_outer(self, ck):
        self.paths_by_role = {}
        self.X = self.popped = None
        roles = {}
        for p in self.opaths:
            cs = self.call(p)
            if p.kind != "ret" or len(cs) < 1:
                continue
            e = cs[-1]
            x = e.args.get(self.code)
            pops = [t for t in walk(x) if t and t[0] == "popped"]
            if pops:
                self.X, self.popped = x, pops[0]
            if p.value[0] == "tup" and len(p.value[1]) == 3:
                for role, t in zip(("imports", "written", "read"), p.value[1]):
                    for i in p.st.cont.get(t, ()):
                        sp = slot_path(i.val, e.ret)
                        if i.mode == "seg" and sp is not None:
                            roles.setdefault(role, set()).add(tuple(sp))
            # sets consulted for the two flags
            for k in p.st.facts:
                if k[0] == "in" and k[2] in p.st.cont:
                    for i in p.st.cont[k[2]]:
                        sp = slot_path(i.val, e.ret)
                        if sp is not None:
                            roles.setdefault(("set", k[2]), set()).add(tuple(sp))
        ck.need(self.X is not None, "no code object taken from a work list is scanned")
        self.node_path = slot_path(self.X, self.popped)
        self.queue = self.popped[1]
        self.roles = roles
        # which set decides which parameter: the one whose membership of X goes with the parameter's value
        self.flag_params = [a for a in self.single.params()[1:] + [x.arg for x in self.single.node.args.kwonlyargs]]
        self.sets = [k[1] for k in roles if isinstance(k, tuple) and k[0] == "set"]

    def in_set(self, p, x, s):
        return p.st.facts.get(("in", x, s))

    def pushes(self, p):
        return [i for i in p.st.cont.get(self.queue, ()) if not (i.mode == "seg" and i.val[0] == "prev")]


def outer_flags(m, p):
    """{set object: membership of X on this path}"""
    return {s: m.in_set(p, m.X, s) for s in m.sets}


def identify_sets(ck, m):
    """(function set, class set, function parameter, class parameter) from how flags depend on membership."""
    corr = {}
    for p in m.opaths:
        for e in m.call(p):
            for a in m.flag_params:
                v = p.truthy(e.args.get(a)) if e.args.get(a) is not None else None
                for s in m.sets:
                    f = m.in_set(p, m.X, s)
                    if f is not None and v is not None:
                        corr.setdefault((a, s), set()).add((f, v))
    fn_param = m.flag_params[0]
    cl_param = m.flag_params[1] if len(m.flag_params) > 1 else None
    for a in m.flag_params:
        if "func" in a or "def" in a:
            fn_param = a
        elif "class" in a:
            cl_param = a
    fs = cs = None
    for s in m.sets:
        # the class set decides its parameter completely; the function set implies its parameter
        c = corr.get((cl_param, s), set())
        f = corr.get((fn_param, s), set())
        if (True, True) in f and (True, False) not in f and fs is None:
            fs = s
        elif (True, True) in c and (True, False) not in c:
            cs = s
    return fs, cs, fn_param, cl_param


def ancestor_member(m, p, s):
    """Facts of the form `an enclosing code object is in s` on this path: True/False/None, and the list used."""
    res, lst = None, None
    for k, v in p.st.facts.items():
        if k[0] == "in" and k[2] == s and k[1][0] == "elem":
            lst = k[1][1]
            if v or res is None:
                res = v
    return res, lst


def C03(ck):
    R = ck.rule
    R("visit", "the code object and every code object among the constants of a visited one are visited, each pushed once")
    R("accumulate", "the imports found in every visited code object are part of the result")
    R("in-function", "an import is flagged in-function iff its code object, or one it is nested in, was made into a function")
    R("marking", "MAKE_FUNCTION marks exactly the code object it makes, functions and classes apart")
    R("import", "every IMPORT_NAME gives one report with the name, level and names its operands denote, at any operand width")
    m = ByteModel(ck)
    fs, cs, fn, cl = identify_sets(ck, m)
    for p in m.opaths:
        w = p.where()
        if p.kind == "raise":
            ck.ob("visit", False, m.C, w, f"the traversal can raise {pretty(p.value)}")
            continue
        ck.ob("visit", p.truthy(m.queue) is False, m.C, w, "the traversal can end while code objects are waiting")
        cs_ = m.call(p)
        if not any(e.kind == "pop" and e.recv == m.queue for e in p.events):
            continue
        ck.ob("visit", len(cs_) == 1 and cs_[0].args.get(m.code) == m.X, m.C, w, f"a visited code object is scanned {len(cs_)} times ({p.cond_text()})")
        consts = ("attr", m.X, "co_consts")
        E = ("elem", consts, 0)
        pushed = [i for i in m.pushes(p) if proj(p, i.val, m.node_path) == E or (i.mode == "seg" and i.val == consts)]
        is_code = p.isinst(E, "types.CodeType")
        if not p.empty_iter(consts):
            early = [e for e in p.events if e.kind == "loopend" and e.recv == consts and e.fn != "exhausted"]
            ck.ob("visit", not early, m.C, w, "constants after some constant are not looked at")
            if is_code is not False:
                conds = [c for i in pushed for c in i.conds if not (c[1][0] == "isinst" and c[1][1] == E) and not c[0] == "type"]
                ck.ob("visit", len(pushed) == 1 and not conds, m.C, w, f"a nested code object is queued {len(pushed)} times ({p.cond_text()})")
            else:
                sure = [i for i in pushed if not any(c[0] == "fact" and c[2] is True and c[1][0] == "isinst" and c[1][1] == E for c in i.conds)]
                ck.ob("visit", not sure, m.C, w, "a constant that is not code is queued")
        others = [i for i in m.pushes(p) if i not in pushed and proj(p, i.val, m.node_path) != m.root]
        ck.ob("visit", not others, m.C, w, "something other than a nested code object is queued")
        if len(cs_) != 1:
            continue
        e = cs_[0]
        accumulate(ck, m, p, e, ("imports",))
        # in-function
        v = p.truthy(e.args.get(fn)) if e.args.get(fn) is not None else None
        own = m.in_set(p, m.X, fs) if fs else None
        anc, lst = ancestor_member(m, p, fs) if fs else (None, None)
        carried = None
        for k, val in p.st.facts.items():
            if k[0] == "truth" and k[1] != m.queue and slot_path(k[1], m.popped) not in (None, m.node_path, []) and slot_path(k[1], m.popped):
                carried = val if carried is None else carried
                cslot = slot_path(k[1], m.popped)
        if v is True:
            ck.ob("in-function", own is True or anc is True or carried is True, m.C, e.where, "code that is not in a function is flagged in-function")
        elif v is False:
            lists_empty = lst is None and any(k[0] == "nonempty" and not val and is_ancestors(p, m, k[1]) for k, val in p.st.facts.items())
            noparents = any(k[0] == "in" and k[1] == m.X and not val and p.st.ckind.get(k[2]) == "dict" for k, val in p.st.facts.items())
            part = [t for k in p.st.facts for t in walk(k[1]) if k[0] in ("nonempty", "in") and isinstance(t, tuple) and partial_slice(t) and not mentions(t, consts)]
            ck.ob("in-function", not part, m.C, e.where, f"only some of the enclosing code objects are looked at ({pretty(part[0], 4) if part else ''})")
            ck.ob("in-function", own is False and (anc is False or lists_empty or noparents or carried is False), m.C, e.where,
                  f"code of a function, or nested in one, is not flagged in-function ({p.cond_text()})")
        else:
            t = e.args.get(fn)
            ck.ob("in-function", False, m.C, e.where, f"the in-function flag is {pretty(t) if t else None}")
        # what children know about their ancestors
        if is_code is True and pushed:
            ancestors_kept(ck, m, p, e, E, fs, pushed[0])
    starts = {proj(p, ev.args[-1], m.node_path) for p in m.opaths for ev in p.evs("mut") if ev.recv == m.queue and not ev.loops and ev.args}
    if starts:
        ck.ob("visit", starts == {m.root}, m.C, m.opaths[0].where(), "the traversal does not start with the code object given")
    if fs is not None:
        for p in m.opaths:
            for e in m.call(p):
                sp = [slot_path(i.val, e.ret) for i in p.st.cont.get(fs, ()) if not (i.mode == "seg" and i.val[0] == "prev")]
                ck.ob("in-function", len(sp) == 1 and sp[0] is not None and tuple(sp[0]) in m.roles.get(("set", fs), ()), m.C, e.where, "the function code objects found are not remembered")
    else:
        ck.ob("in-function", False, m.C, m.opaths[0].where(), "nothing records which code objects are functions")
    inner_imports(ck, m, fn)
    marking(ck, m, fs, cs)
    ck.instances("visit", 20)
    ck.instances("import", 20)


def partial_slice(t):
    """A slice that can leave out elements (other than the last one, which is the code object itself)."""
    return len(t) == 5 and t[0] == "slice" and not (t[2] in (NONE, C(0)) and t[3] in (NONE, C(-1)) and t[4] in (NONE, C(1), C(-1))) and not (t[2] == t[3] == NONE and t[4] == C(-1))


def is_ancestors(p, m, t):
    return not (t[0] == "attr" and t[2] == "co_consts")


def ancestors_kept(ck, m, p, e, E, fs, push):
    """The child's ancestor list contains its parent's list and the parent (or itself), or a carried flag does."""
    for ev in p.evs("mut", fn="set"):
        if p.st.ckind.get(ev.recv) == "dict" and ev.args and ev.args[0] == E:
            lst = ev.args[1]
            items = p.st.cont.get(lst, ())
            has_self = any(i.mode == "item" and i.val in (E, m.X) for i in items)
            inherited = any(i.mode == "seg" and mentions(i.val, m.X) for i in items)
            known = p.st.facts.get(("in", m.X, ev.recv))
            ck.ob("in-function", has_self and (inherited or known is False), m.C, ev.where, "a nested code object does not know all code objects it is nested in")
            return
    sp = None
    if push.mode == "item" and push.val[0] in ("tup", "rec"):
        # carried with the work item
        vals = push.val[1] if push.val[0] == "tup" else [v for _, v in push.val[2]]
        for n, v in enumerate(vals):
            if [n] == m.node_path:
                continue
            if v in p.st.cont:
                items = p.st.cont[v]
                has_self = any(i.mode == "item" and i.val in (E, m.X) for i in items)
                inherited = any(i.mode == "seg" and slot_path(i.val, m.popped) == [n] for i in items)
                ck.ob("in-function", has_self and inherited, m.C, push_where(p, e), "a nested code object does not know all code objects it is nested in")
                return
            tv = p.truthy(v)
            own = m.in_set(p, m.X, fs)
            inh = p.truthy(("item", m.popped, C(n)))
            if v == ("item", m.popped, C(n)) or tv is not None:
                ck.ob("in-function", (tv is True) == (own is True or inh is True) or v == ("item", m.popped, C(n)) and own is False, m.C, e.where,
                      "code nested in a function loses the in-function flag")
                return
    ck.ob("in-function", False, m.C, e.where, "a nested code object does not know what it is nested in")


def push_where(p, e):
    return e.where


def accumulate(ck, m, p, e, roles):
    if p.value[0] != "tup" or len(p.value[1]) != 3:
        ck.ob("accumulate", False, m.C, p.where(), f"the result is {pretty(p.value)}")
        return
    for role, t in zip(("imports", "written", "read"), p.value[1]):
        if role not in roles:
            continue
        want = m.roles.get(role, set())
        new = [i for i in p.st.cont.get(t, ()) if not (i.mode == "seg" and i.val[0] == "prev")]
        sps = [slot_path(i.val, e.ret) for i in new]
        ok = len(new) == 1 and sps[0] is not None and len(want) == 1 and tuple(sps[0]) in want and new[0].mode == "seg" and not new[0].conds
        lost = not any(i.mode == "seg" and i.val[0] == "prev" for i in p.st.cont.get(t, ())) and role is not None
        ck.ob("accumulate", ok and not p.st.minus.get(t), f"{m.C}:{role}", p.where(), f"the {role} of a visited code object are not (only) added to the result ({p.cond_text()})")


def inst_terms(m):
    return [("call", "dis.get_instructions", (("sym", m.code),), (), 0), ("call", "dis.Bytecode", (("sym", m.code),), (), 0)]


class Inst:
    """The generic instruction of the inner scan and its predecessors."""

    def __init__(self, m, p):
        self.src = next((s for s in inst_terms(m) if any(k[0] == "nonempty" and k[1] == s for k in p.st.facts)), None)
        self.E = ("elem", self.src, 0) if self.src else None
        self.lists = [o for o, items in p.st.cont.items() if any(mentions(i.val, self.src) and not mentions(i.val, "strobj") for i in items if i.mode == "item" and i.val == self.E)] if self.src else []

    def consistent(self, p, op):
        t = ("attr", self.E, "opname")
        d = p.st.dom.get(t)
        return d is None or ((C(op) in d[1]) == (d[0] == "in"))

    def only(self, p, ops):
        d = p.st.dom.get(("attr", self.E, "opname"))
        return d is not None and d[0] == "in" and all(x[2] in ops for x in d[1])

    def prev(self, p, k):
        for o in self.lists:
            yield ("item", o, ("lin", -k, ((("idx", o), 1),)))


def operand(m, inst, table, shift=False):
    """Terms that denote the table entry an instruction refers to."""
    a = ("attr", inst, "arg")
    if shift:
        a = ("op", "RShift", a, C(1))
    return {("item", ("attr", ("sym", m.code), table), a), ("attr", inst, "argval")}


def filtered(p, I):
    """The instruction list holds every instruction except EXTENDED_ARG."""
    for o in I.lists:
        ok = True
        for i in p.st.cont[o]:
            if i.mode == "seg":
                if i.val[0] != "prev":
                    ok = False
                continue
            if i.val == I.E:
                conds = [c for c in i.conds]
                if not any(c[0] == "dom" and c[1] == ("attr", I.E, "opname") and C("EXTENDED_ARG") in c[2][1] and c[2][0] == "notin" for c in conds):
                    ok = False
                for c in conds:
                    if c[0] == "dom" and c[1] == ("attr", I.E, "opname") and c[2] == ("notin", frozenset([C("EXTENDED_ARG")])):
                        continue
                    ok = False
        if ok:
            return True
    return False


def new_items(p, t):
    return [i for i in p.st.cont.get(t, ()) if not (i.mode == "seg" and i.val[0] == "prev")]


def role_cont(m, p, role):
    sp = m.roles.get(role)
    if not sp or len(sp) != 1:
        return None
    return proj(p, p.value, list(next(iter(sp))))


def inner_imports(ck, m, fn):
    for p in m.ipaths:
        w = p.where()
        if p.kind == "raise":
            ck.ob("import", False, m.S, w, f"the scan of a code object can raise {pretty(p.value)} ({p.cond_text()})")
            continue
        I = Inst(m, p)
        cont = role_cont(m, p, "imports")
        ck.need(cont is not None and cont in p.st.cont, "imports found in one code object not recognised")
        new = new_items(p, cont)
        if I.src is None or p.empty_iter(I.src):
            ck.ob("import", not new, m.S, w, "imports are reported for code without instructions")
            continue
        early = [e for e in p.events if e.kind == "loopend" and e.fn != "exhausted" and e.recv in [I.src] + I.lists]
        ck.ob("import", not early, m.S, w, "instructions after some instruction are not looked at")
        if not I.consistent(p, "IMPORT_NAME"):
            ck.ob("import", not new, m.S, w, f"an import is reported for another instruction ({p.cond_text()})")
            continue
        if p.st.dom.get(("attr", I.E, "opname"), ("notin",))[0] == "notin" and not new:
            # the path is for instructions the scan ignores
            ck.ob("import", False, m.S, w, f"IMPORT_NAME is ignored ({p.cond_text()})")
            continue
        recs = [i for i in new if i.mode == "item" and i.val[0] == "rec" and i.val[1] == "ImportInfo"]
        ck.ob("import", len(new) == 1 and len(recs) == 1 and not recs[0].conds, m.S, w, f"an import instruction is reported {len(new)} times ({p.cond_text()})")
        if len(recs) != 1:
            continue
        v = recs[0].val
        t, a = text_of(p, rec_field(v, "import_module"))
        ck.ob("import", t in operand(m, I.E, "co_names") and (a is None or p.is_none(a) is True), m.S + ":module", w, f"the reported module is {pretty(t)}")
        ck.ob("import", p.truthy(rec_field(v, "is_in_conditional")) is False and p.truthy(rec_field(v, "is_in_tryexcept")) is False, m.S + ":flags", w,
              "an import found in bytecode is flagged conditional or try/except")
        f = rec_field(v, "is_in_function")
        ck.ob("in-function", f == ("sym", fn) or (p.truthy(f) is not None and p.truthy(f) == p.truthy(("sym", fn))), m.S + ":flags", w, f"in-function is {pretty(f)}")
        ck.ob("import", filtered(p, I), m.S + ":width", w, "instructions before the import may be operand prefixes")
        prevs = list(I.prev(p, 2))
        lev = rec_field(v, "import_level")
        good = False
        for x in prevs:
            d = p.st.dom.get(("attr", x, "opname"))
            ops = {c[2] for c in d[1]} if d and d[0] == "in" else {"LOAD_CONST", "LOAD_SMALL_INT"} - ({c[2] for c in d[1]} if d else set())
            okops = {"LOAD_CONST": operand(m, x, "co_consts"), "LOAD_SMALL_INT": {("attr", x, "arg"), ("attr", x, "argval")}}
            good = good or all(lev in okops.get(o, {lev}) for o in ops)
        ck.ob("import", good, m.S + ":level", w, f"the reported level is {pretty(lev)}")
        fl = next((t for x in I.prev(p, 1) for t in operand(m, x, "co_consts") if mentions_any(p, t)), None)
        S = rec_field(v, "import_names")
        if fl is None:
            ck.ob("import", False, m.S + ":names", w, f"the imported names are {pretty(S)}")
        elif p.is_none(fl) is True:
            ck.ob("import", empty_coll(p, S) and p.truthy(rec_field(v, "star_import")) is False, m.S + ":names", w, "names are reported for a plain import")
        else:
            from_names(ck, "import", p, v, fl, lambda el: (el, NONE), m.S + ":names", w)


def mentions_any(p, t):
    return any(mentions(k, t) for k in p.st.facts) or any(mentions(i.val, t) for items in p.st.cont.values() for i in items)


def marking(ck, m, fs, cs):
    for p in m.ipaths:
        if p.kind != "ret":
            continue
        w = p.where()
        I = Inst(m, p)
        if I.src is None or p.empty_iter(I.src):
            continue
        sets = {}
        for nm, s in (("function", fs), ("class", cs)):
            sp = m.roles.get(("set", s)) if s else None
            sets[nm] = proj(p, p.value, list(next(iter(sp)))) if sp and len(sp) == 1 else None
        if sets["function"] is None:
            ck.ob("marking", False, m.S, w, "function code objects are not reported")
            return
        fnew = new_items(p, sets["function"])
        cnew = new_items(p, sets["class"]) if sets["class"] is not None else []
        if not I.consistent(p, "MAKE_FUNCTION"):
            ck.ob("marking", not fnew and not cnew, m.S, w, "a code object is marked by an instruction other than MAKE_FUNCTION")
            continue
        if p.st.dom.get(("attr", I.E, "opname"), ("notin",))[0] == "notin" and not fnew and not cnew:
            ck.ob("marking", False, m.S, w, "MAKE_FUNCTION is ignored")
            continue
        bodies = {i.val for i in fnew + cnew} | {t for k in (1, 2) for x in I.prev(p, k) for t in operand(m, x, "co_consts")}
        for name in ("<generic parameters of Box>", "f", "<lambda>", "<genexpr>", "Box", "generic_parameters_of"):
            env = {("attr", t, "co_name"): name for t in bodies}
            if Values(p, env).holds(set(env)) is False:
                continue
            if name.startswith("<generic"):
                # the scope of type parameters runs with the statement that has them
                ck.ob("marking", not fnew, m.S + ":generic", w, "the scope of type parameters is marked as a function, so the body of a class with type parameters is taken to be inside one")
            else:
                ck.ob("marking", len(fnew) + len(cnew) == 1, m.S, w, f"MAKE_FUNCTION marks {len(fnew) + len(cnew)} code objects ({p.cond_text()})")
        for i in fnew + cnew:
            for v in versions(p):
                k = 1 if v >= (3, 11) else 2
                okv = {t for x in I.prev(p, k) for t in operand(m, x, "co_consts")}
                ck.ob("marking", i.val in okv and filtered(p, I), m.S, w, f"on Python {v[0]}.{v[1]} MAKE_FUNCTION marks {pretty(i.val)}")
            bit = [val for key, val in p.st.facts.items() if key[0] in ("truth", "isinst", "numeq") and mentions(key, ("attr", i.val, "co_flags")) and any(isinstance(x, tuple) and x and x[0] == "ext" and x[1].endswith("CO_OPTIMIZED") or x == C(1) for x in walk(key))]
            val = p.truthy(("op", "BitAnd", ("attr", i.val, "co_flags"), ("ext", "inspect.CO_OPTIMIZED")))
            if val is None and bit:
                val = bit[0]
            want = True if i in fnew else False
            ck.ob("marking", val is want, m.S + ":class", w, f"a code object is marked as {'function' if want else 'class'} without looking at what it is")


def C04(ck):
    R = ck.rule
    R("accumulate", "written and read globals of every visited code object are part of the result")
    R("written", "written globals: names stored by module code, from-imported by module code (not `*`), or stored through `global`")
    R("read", "read globals: names loaded by module code, or loaded as globals by any code")
    R("class-flag", "code is treated as class code iff it was recorded as the body of a class")
    m = ByteModel(ck)
    fs, cs, fn, cl = identify_sets(ck, m)
    for p in m.opaths:
        for e in m.call(p):
            accumulate(ck, m, p, e, ("written", "read"))
            if cl is None or cs is None:
                ck.ob("class-flag", False, m.C, e.where, "class bodies are not told apart")
                continue
            v = p.truthy(e.args.get(cl)) if e.args.get(cl) is not None else None
            f = m.in_set(p, m.X, cs)
            ck.ob("class-flag", v is not None and v == f, m.C, e.where, f"class flag is {v} for code whose recorded-as-class status is {f}")
            sp = [slot_path(i.val, e.ret) for i in new_items(p, cs)]
            ck.ob("class-flag", len(sp) == 1 and sp[0] is not None and tuple(sp[0]) in m.roles.get(("set", cs), ()), m.C, e.where, "the class bodies found are not remembered")
            v = p.truthy(e.args.get(fn)) if e.args.get(fn) is not None else None
            ck.ob("class-flag", v is not None, m.C, e.where, "the function flag is not determined")
    names = {"IMPORT_NAME", "STORE_NAME", "STORE_GLOBAL", "LOAD_NAME", "LOAD_GLOBAL"}
    fnt, clt = ("sym", fn), ("sym", cl)
    for p in m.ipaths:
        if p.kind != "ret":
            continue
        w = p.where()
        I = Inst(m, p)
        W, Rd = role_cont(m, p, "written"), role_cont(m, p, "read")
        ck.need(W in p.st.cont and Rd in p.st.cont, "globals found in one code object not recognised")
        wn, rn = new_items(p, W), new_items(p, Rd)
        if I.src is None or p.empty_iter(I.src):
            ck.ob("written", not wn and not rn, m.S, w, "names are reported for code without instructions")
            continue
        d = p.st.dom.get(("attr", I.E, "opname"))
        ops = {c[2] for c in d[1]} if d and d[0] == "in" else names - ({c[2] for c in d[1]} if d else set())
        rest = not (d and d[0] == "in")
        isf, isc = p.truthy(fnt), p.truthy(clt)
        # all combinations of the flags consistent with the path
        combos = [(a, b) for a in (True, False) for b in (True, False) if isf in (None, a) and isc in (None, b)]
        for op in sorted(ops) + (["any other instruction"] if rest or not (ops & names) else []):
            for f, c in combos:
                module = not f and not c
                cons = f"{m.S}:{op}"
                desc = "module" if module else "class" if c else "function"
                store = (op == "STORE_GLOBAL") or (op == "STORE_NAME" and module)
                if op == "IMPORT_NAME":
                    imp_written(ck, m, p, I, wn, module, cons, w, desc, W)
                elif op == "STORE_NAME" and f and not c:
                    pass      # does not occur
                else:
                    one_name(ck, "written", m, p, I, wn, store, operand(m, I.E, "co_names"), cons, w, f"{op} in {desc} code")
                if op == "LOAD_NAME" and f and not c:
                    pass      # does not occur in optimised function code
                elif op == "LOAD_GLOBAL":
                    for v in versions(p):
                        one_name(ck, "read", m, p, I, rn, True, operand(m, I.E, "co_names", v >= (3, 11)), cons, w, f"{op} in {desc} code (Python {v[0]}.{v[1]})")
                else:
                    one_name(ck, "read", m, p, I, rn, op == "LOAD_NAME" and module, operand(m, I.E, "co_names"), cons, w, f"{op} in {desc} code")
    ck.instances("written", 30)
    ck.instances("read", 30)


def one_name(ck, rule, m, p, I, items, want, terms, cons, w, desc):
    if want:
        ok = len(items) == 1 and items[0].mode == "item" and items[0].val in terms and not items[0].conds
        ck.ob(rule, ok, cons, w, f"the name of {desc} is not reported as {rule} ({[pretty(i.val) for i in items]})")
    else:
        ck.ob(rule, not items, cons, w, f"a name is reported as {rule} for {desc}: {[pretty(i.val) for i in items]}")


def imp_written(ck, m, p, I, wn, module, cons, w, desc, W):
    fls = [t for x in I.prev(p, 1) for t in operand(m, x, "co_consts")]
    if not module:
        ck.ob("written", not wn, cons, w, f"a from-import in {desc} code is reported as written global")
        return
    fl = next((t for t in fls if mentions_any(p, t)), None)
    if fl is None:
        ck.ob("written", False, cons, w, "from-imported names are not reported")
        return
    if p.is_none(fl) is True:
        ck.ob("written", not wn, cons, w, "names are reported for a plain import")
        return
    if p.empty_iter(fl):
        return
    minus = [y for x in p.st.minus.get(W, ()) for y in flat(x)]
    ok = False
    for i in wn:
        if i.mode == "seg" and i.val == fl and not i.conds:
            ok = C("*") in minus or star_absent(p)
        elif i.mode == "item" and text_of(p, i.val)[0] == ("elem", fl, 0):
            d = [c for c in i.conds if not (c[0] == "dom" and c[1] == ("elem", fl, 0) and c[2] == ("notin", frozenset([C("*")])))]
            ok = not d and (C("*") in minus or bool(i.conds) or star_absent(p) or p.eq(("elem", fl, 0), C("*")) is False)
    if p.eq(("elem", fl, 0), C("*")) is True and not (ok and all(i.mode == "seg" for i in wn)):
        ok = not wn
    ck.ob("written", ok, cons, w, f"from-imported names of module code are not reported as written, or `*` is ({[pretty(i.val) for i in wn]})")
    ck.ob("written", all(x == C("*") for x in minus), cons, w, f"names are removed from the written globals: {[pretty(x) for x in minus]}")


def star_absent(p):
    return any(k[0] == "in" and text_of(p, k[1])[0] == C("*") and v is False for k, v in p.st.facts.items())
