"""C22-C26: queries, reports, command line, callback lists."""
import ast
from html.parser import HTMLParser

from ..engine import Item
from ..callgraph import CallGraph
from ..domain import Rep, Unknown, Values
from ..repo import AnalysisBroken
from ..rulekit import *  # noqa: F401,F403
from ..rulekit import C, SELF, FALSE, NONE, pretty, walk, is_const
from .callbacks import call_rule, clear_rule, own_rule

GRAPH = ("sym", "graph")


# -- what is written ---------------------------------------------------------------
class Piece:
    """A piece of text that is written to a stream."""
    __slots__ = ("parts", "loops", "e")

    def __init__(self, parts, loops, e):
        self.parts, self.loops, self.e = parts, loops, e

    def text(self, V):
        return "".join(str(V.ev(t)) for t in self.parts)


def pieces(p, events=None):
    """The text written on a path, in order: [(stream, Piece)]."""
    out = []
    for e in p.events if events is None else events:
        if e.kind == "print":
            kw = dict(e.kw)
            sep, end = kw.get("sep", C(" ")), kw.get("end", C("\n"))
            sep, end = (C(" ") if sep == NONE else sep), (C("\n") if end == NONE else end)
            parts = []
            for i, a in enumerate(e.args):
                parts += ([sep] if i else []) + [a]
            out.append((e.recv, Piece(parts + [end], e.loops, e)))
        elif e.kind == "write":
            out.append((e.recv, Piece(list(e.args), e.loops, e)))
    return out


def keyed_by(p, key, name):
    """Does the sort key stand for attribute `name`?"""
    if key is None:
        return False
    if key[0] == "call" and key[1] == "operator.attrgetter":
        return key[2] == (C(name),)
    x = ("sym", "any-item")
    if key[0] in ("clo", "func"):
        st = p.st.fork()
        rs = p.eng.call_value(key, [x], [], st, None, None) if key[0] == "func" else p.eng.call_closure(key, [x], [], st, p.path.entry.node)
        return all(r[0] == ("attr", x, name) for r in rs) and bool(rs)
    return False


def iterated(p, fn, graph):
    """Terms that stand for the result of graph.<fn>(...)."""
    return [e for e in p.evs("query", fn) if e.recv == graph]


def elem(L):
    return ("elem", L, 0)


def left_early(p, L):
    """Ways in which a loop over L ends other than by running out of items."""
    return [e for e in p.evs("loopend") if e.recv == L and e.fn != "exhausted"]


def orders(p, L):
    """Sorting and reversing of what a loop over L handles."""
    def of(r):
        return r == L or r in p.st.cont and any(L in i.loops or i.mode == "seg" and (i.val == L or i.val[:1] == ("prev",)) for i in p.st.cont[r])
    return [e for e in p.evs("order") if e.fn != "copy" and of(e.recv)]


NODE = ("Module", "BaseNode")
SOURCE = ("SourceModule",) + NODE
PACKAGE = ("Package", "BaseNode")
DIST = ("PyPIDistribution",)


def node(classes, ident, **kw):
    kw.setdefault("name", ident)
    kw.setdefault("filename", None)
    kw.setdefault("distribution", None)
    kw.setdefault("loader", None)
    kw.setdefault("extension_attributes", {})
    return Rep(classes, identifier=ident, **kw)


# -- C22 ---------------------------------------------------------------------------
def C22(ck):
    R = ck.rule
    R("from", "the nodes looked at are those reachable from the roots by default, all nodes on request")
    R("once", "a distribution is given exactly when a node that is not a distribution belongs to it and it was not given before")
    R("all", "every one of the nodes is looked at")
    R("lines", "the report has one line with class, identifier and file per module or script node, none for distributions")
    R("order", "the lines are in identifier order")
    distributions(ck)
    report(ck)
    ck.instances("once", 6)
    ck.instances("lines", 3)


def tells(t, D):
    """Does t tell the distribution D from every other one?"""
    return t in (D, ("attr", D, "identifier")) or t[0] == "call" and t[1] == "id" and t[2] == (D,)


def distributions(ck):
    fi = ck.repo.func("_modulegraph:ModuleGraph.distributions")
    ck.need(fi, "ModuleGraph.distributions not found")
    cons = "ModuleGraph.distributions"
    want = ("sym", "reachable")
    gave, memory, rest = 0, set(), []
    a = fi.node.args
    d = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults)})
    ck.ob("from", "reachable" in d and getattr(d["reachable"], "value", None) is True, cons, cons, "by default the nodes are not those reachable from the roots")
    for p in ck.run(ck.engine(), fi, init=graph_init()):
        w = p.where()
        if p.kind == "raise":
            ck.ob("once", False, cons, w, f"raises {pretty(p.value)}")
            continue
        r = p.truthy(want)
        if r is None:
            r = p.eq(want, TRUE)
        src = [e for e in p.evs("query") if e.fn in ("iter_graph", "nodes") and e.recv == SELF]
        ys = p.evs("yield")
        if r is None:
            ck.ob("from", len(src) == 0 and not ys, cons, w, "which nodes are looked at does not depend on `reachable`")
        ck.ob("from", len(src) == 1, cons, w, "the nodes are not listed exactly once")
        if not src:
            continue
        ck.ob("from", r is None or src[0].fn == ("iter_graph" if r else "nodes"), cons, src[0].where,
              f"the nodes come from {src[0].fn}() when reachable is {r}")
        L = src[0].ret
        ck.ob("from", all(v is None or v == NONE for v in src[0].args.values()) if isinstance(src[0].args, dict) else True, cons, src[0].where, "the listing of nodes is restricted")
        if p.empty_iter(L):
            ck.ob("once", not ys, cons, w, "a distribution is given though there is no node")
            continue
        ends = [e for e in p.evs("loopend") if e.recv == L]
        ck.ob("all", bool(ends) and not left_early(p, L), cons, w, f"the nodes are not looked at one by one to the end ({p.cond_text()})")
        N = elem(L)
        D = ("attr", N, "distribution")
        own = p.isinst(N, "PyPIDistribution")
        if own is None and p.isinst(N, "BaseNode") is not None:
            own = not p.isinst(N, "BaseNode")
        if own is None and p.st.facts.get(("hasattr", N, "distribution")) is not None:
            own = not p.st.facts[("hasattr", N, "distribution")]  # of the nodes only a distribution has none
        has = p.isinst(D, "PyPIDistribution")
        if has is None and p.is_none(D) is not None:
            has = not p.is_none(D)
        if has is None:
            has = p.truthy(D)
        memory |= {k[2] for k in p.st.facts if k[0] == "in" and k[2] in p.st.cont}
        seen = new = None
        for k, v in p.st.facts.items():
            if k[0] == "in" and tells(k[1], D) and k[2] in p.st.cont:
                seen, new = k[2], not v
        for e in p.evs("mut", "set"):
            if tells(e.args[0], D) and dict(e.kw).get("was") == FALSE:
                seen, new = e.recv, True
        # what was collected for earlier nodes may be given when the loop is over
        ys = [y for y in ys if not (L not in y.loops and y.args[0][:1] == ("elem",) and y.args[0][1][:1] == ("prev",)
                                                         and y.args[0][1][1] in p.st.cont and seen in (None, y.args[0][1][1]))]
        asked = own is False and has is True and seen is not None
        if asked and new:
            gave += 1
            ck.ob("once", len(ys) == 1 and ys[0].args[0] == D and bool(ys[0].loops), cons, w, "a distribution that was not given yet is not given exactly once")
            key = [k[1] for k in p.st.facts if k[0] == "in" and k[2] == seen]
            now = [i.val for i in p.st.cont[seen] if i.mode == "item"] + [i.key for i in p.st.cont[seen] if i.key is not None]
            ck.ob("once", key[0] in now, cons, w, "a distribution that was given is not remembered")
            kept = any(i.mode == "seg" and i.val[:1] == ("prev",) for i in p.st.cont[seen])
            ck.ob("once", kept, cons, w, "what was given before is forgotten")
        else:
            ok = own is True or has is False or (asked and new is False)
            ck.ob("once", ok, cons, w, f"a node is passed over without need ({p.cond_text()})" if not ys else f"a distribution is given though it may have been before ({p.cond_text()})")
            ck.ob("once", not ys, cons, w, f"a distribution is given without need ({p.cond_text()})")
            rest.append((p, [k[1:] for k in p.st.facts if k[0] == "in"]))
    for p, known in rest:
        for o in memory & set(p.st.cont):
            bad = [i for i in p.st.cont[o] if i.mode == "item" and (i.val, o) not in known and (i.key, o) not in known]
            ck.ob("once", not bad, cons, p.where(), f"something that was not given is remembered as given ({p.cond_text()})")
    ck.ob("once", gave >= 2, cons, cons, "no distribution is ever given")


def report(ck):
    fi = ck.repo.func("_modulegraph:ModuleGraph.report")
    ck.need(fi, "ModuleGraph.report not found")
    cons = "ModuleGraph.report"
    import pathlib
    reps = [node(SOURCE, "pkg.mod", name="pkg.mod", filename=pathlib.PurePosixPath("/lib/pkg/mod.py")), node(("BuiltinModule",) + NODE, "sys"),
            node(("MissingModule", "BaseNode"), "gone.away"), node(("Script", "BaseNode"), "/bin/tool", filename=pathlib.PurePosixPath("/bin/tool")),
            node(PACKAGE, "a_package_with_a_name_longer_than_its_column.sub", filename=pathlib.PurePosixPath("/lib/p/__init__.py")),
            node(DIST, "distribution@wheel", name="wheel")]
    f = ("sym", "file")
    did = set()
    for p in ck.run(ck.engine(), fi, init=graph_init()):
        w = p.where()
        if p.kind == "raise":
            ck.ob("lines", False, cons, w, f"raises {pretty(p.value)}")
            continue
        src = iterated(p, "iter_graph", SELF)
        ck.ob("lines", len(src) == 1, cons, w, "the nodes reachable from the roots are not listed exactly once")
        if not src:
            continue
        L = src[0].ret
        away = [x for t, x in pieces(p) if t != f]
        ck.ob("lines", not away, cons, w, "something is written elsewhere than to the given file")
        if p.empty_iter(L):
            continue
        ck.ob("lines", not left_early(p, L), cons, w, f"the report ends before the last node ({p.cond_text()})")
        o = orders(p, L)
        ck.ob("order", len(o) == 1 and o[0].fn[0] == "sorted" and keyed_by(p, o[0].fn[1], "identifier") and o[0].fn[2] in (None, FALSE), cons, w,
              "the nodes are not sorted by identifier")
        for n in reps:
            V = Values(p, {elem(L): n}, universe={L: reps})
            if V.holds({elem(L)}) is False:
                continue
            try:
                t = "".join(x.text(V) for s, x in pieces(p) if s == f and L in x.loops)
                other = [x for s, x in pieces(p) if s != f and L in x.loops]
                # lines that are collected first and written in one go
                t += "".join(x.text(V) for s, x in pieces(p) if s == f and not x.loops and any(elem(L) in walk(y) for y in x.parts))
            except Unknown as exc:
                ck.ob("lines", False, cons, w, f"the line for a {n.classes[0]} cannot be followed ({exc})")
                continue
            did.add(n)
            fn = n.attrs["filename"]
            words = [n.classes[0], n.attrs["identifier"]] + ([str(fn)] if fn else [])
            if n.classes is DIST:
                ck.ob("lines", t == "", cons, w, f"something is written for a distribution node: {t!r}")
            else:
                ck.ob("lines", t.split() == words and t.count("\n") == 1 and t.endswith("\n") and not other, cons, w,
                      f"what is written for a {n.classes[0]} is {t!r}")
    ck.ob("lines", len(did) == len(reps), cons, cons, "some kind of node is never reported")


# -- C23 ---------------------------------------------------------------------------
class Markup(HTMLParser):
    """The structure of a document: tags with their attributes, and text."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.out, self.bad = [], []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.out.append(("tag", tag, tuple(attrs)))

    def handle_startendtag(self, tag, attrs):
        self.out.append(("tag", tag, tuple(attrs)))

    def handle_endtag(self, tag):
        self.out.append(("end", tag))

    def handle_data(self, data):
        if self.out and self.out[-1][0] == "text":
            self.out[-1] = ("text", self.out[-1][1] + data)
        else:
            self.out.append(("text", data))

    def handle_comment(self, data):
        self.out.append(("comment", data))

    handle_decl = handle_pi = unknown_decl = handle_comment


def renamed(x, names):
    """A structure with the plain names replaced by the awkward ones."""
    if isinstance(x, str):
        for a, b in names.items():
            x = x.replace(a, b)
        return x
    return type(x)(renamed(y, names) for y in x) if isinstance(x, (tuple, list)) else x


AWKWARD = ["a<evil>b", "x" + chr(34) + " onload=" + chr(34) + "y", "it's' z='1", "&lt;&amp;&#60;", "<!--", "</a></h2>", "]]><script>", "." + "long" * 90]


class Link:
    """Nodes one section is about: the node itself, one it depends on, one that uses it."""

    def __init__(self, p, L, graph, nkind, skind, siblings, names=("QNODEQ", "QTARGETQ", "QUSERQ")):
        n, t, u = names
        self.node = node(nkind, n)
        self.target = node(SOURCE, t)
        self.user = node(DIST if skind == "dist" else SOURCE, u)
        self.linkable = skind == "reachable"
        env = {elem(L): self.node}
        N = elem(L)
        self.has = {}
        self.ends = []
        for fn, arg, o in (("outgoing", "source", self.target), ("incoming", "destination", self.user)):
            q = [e for e in p.evs("query", fn) if e.recv == graph and e.arg(arg, 0) == N and L in e.loops]
            self.has[fn] = not q or not any(p.empty_iter(e.ret) for e in q)
            for e in q:
                env[elem(e.ret)] = (Rep(("set",)), o)
                self.ends.append(e.ret)
        uni = [self.node, self.target] + ([self.user] if skind != "unreachable" else [])
        self.V = Values(p, env, universe={L: uni}, siblings=siblings)


def C23(ck):
    R = ck.rule
    R("sections", "every module or script node reachable from the roots has one section with its anchor, class and name, nothing else has")
    R("links", "a section links to what the node depends on and to the reachable module or script nodes that use it, and to nothing else")
    R("escape", "no name changes the structure of the document")
    R("all", "all nodes, dependencies and users are gone through")
    R("frame", "the document is opened and closed once")
    fi = ck.repo.func("_htmlbuilder:export_to_html")
    ck.need(fi, "export_to_html not found")
    cons = "export_to_html"
    f = ("sym", "file")
    done = set()
    paths = ck.run(ck.engine(skip_prev=True), fi, init=graph_init(GRAPH))
    for p in paths:
        w = p.where()
        if p.kind == "raise":
            ck.ob("sections", False, cons, w, f"raises {pretty(p.value)}")
            continue
        src = iterated(p, "iter_graph", GRAPH)
        ck.ob("sections", bool(src), cons, w, "the nodes reachable from the roots are not listed")
        if not src:
            continue
        L = src[0].ret
        ps = [x for x in pieces(p) if not any(l[0] == "prev" for l in x[1].loops)]
        ck.ob("sections", all(s == f for s, _ in ps), cons, w, "part of the document is written elsewhere")
        if p.empty_iter(L):
            try:
                frame(ck, cons, w, "".join(x.text(Values(p, {})) for _, x in ps))
            except Unknown as exc:
                ck.ob("frame", False, cons, w, f"the document without nodes cannot be followed ({exc})")
            continue
        ck.ob("all", not left_early(p, L), cons, w, f"the report ends before the last node ({p.cond_text()})")
        for nkind in (SOURCE, ("Script", "BaseNode"), ("MissingModule", "BaseNode"), DIST):
            for skind in ("reachable", "unreachable", "dist"):
                k = Link(p, L, GRAPH, nkind, skind, paths)
                if k.V.holds(classes=True) is False:
                    continue
                for q in k.ends:
                    ck.ob("all", not left_early(p, q), cons, w, f"not all dependencies or users are gone through ({p.cond_text()})")
                try:
                    plain = "".join(x.text(k.V) for _, x in ps)
                    doc = Markup(plain).out
                except Unknown as exc:
                    ck.ob("sections", False, cons, w, f"the section of a {nkind[0]} cannot be followed ({exc})")
                    continue
                frame(ck, cons, w, plain)
                done.add((nkind[0], skind))
                section(ck, cons, w, doc, k, nkind is DIST, p)
                for x in AWKWARD:
                    names = {"QNODEQ": f"n{x}", "QTARGETQ": f"t{x}", "QUSERQ": f"u{x}"}
                    k2 = Link(p, L, GRAPH, nkind, skind, paths, tuple(names.values()))
                    if k2.V.holds() is False:
                        continue
                    try:
                        odd = Markup("".join(y.text(k2.V) for _, y in ps)).out
                    except Unknown as exc:
                        ck.ob("escape", False, cons, w, f"the section cannot be followed ({exc})")
                        continue
                    ck.ob("escape", odd == renamed(doc, names), cons, w, f"a node named {names['QNODEQ']!r} changes the structure of the report ({p.cond_text()})")
    ck.ob("sections", len(done) >= 10, cons, cons, "some kinds of node are never reported")
    ck.instances("escape", 30)


def frame(ck, cons, w, text):
    m = Markup(text).out
    for t in ("html", "body"):
        ck.ob("frame", sum(1 for x in m if x[:2] == ("tag", t)) == 1 and sum(1 for x in m if x == ("end", t)) == 1, cons, w, f"<{t}> is not opened and closed once")
    tags = [x[:2] for x in m if x[0] in ("tag", "end")]
    ck.ob("frame", bool(tags) and tags[0] == ("tag", "html") and tags[-1] == ("end", "html") and tags[-2] == ("end", "body"), cons, w, "there is markup outside the document body")


def section(ck, cons, w, doc, k, isdist, p):
    anchors = [v for x in doc if x[0] == "tag" for a, v in x[2] if a in ("name", "id")]
    hrefs = [(i, v) for i, x in enumerate(doc) if x[0] == "tag" for a, v in x[2] if a == "href"]
    text = "".join(x[1] for x in doc if x[0] == "text")
    if isdist:
        ck.ob("sections", not anchors and "QNODEQ" not in text, cons, w, "a distribution node has a section")
        ck.ob("links", not hrefs, cons, w, "there are links outside a section")
        return
    ck.ob("sections", anchors == ["QNODEQ"], cons, w, f"a node has the anchors {anchors} instead of one with its identifier ({p.cond_text()})")
    ck.ob("sections", k.node.classes[0] in text and "QNODEQ" in text, cons, w, "the class or name of a node is not given")
    want = ["#QTARGETQ"] if k.has["outgoing"] else []
    if k.has["incoming"] and k.linkable:
        want.append("#QUSERQ")
    ck.ob("links", sorted(v for _, v in hrefs) == sorted(want), cons, w, f"the links of a section are {sorted(v for _, v in hrefs)} instead of {sorted(want)} ({p.cond_text()})")
    for i, v in hrefs:
        said = ""
        for x in doc[:i]:
            if x[0] == "text":
                said += x[1].lower()
        dep = max(said.rfind(x) for x in ("depend", "require", "imports"))
        use = max(said.rfind(x) for x in ("used", "users", "imported by", "required by"))
        if dep != use:
            ck.ob("links", (dep > use) == (v == "#QTARGETQ"), cons, w, "users are listed as dependencies or the other way round")
        after = doc[i + 1:i + 2]
        ck.ob("links", bool(after) and after[0][0] == "text" and v[1:] in after[0][1], cons, w, "a link does not name what it leads to")


# -- C24 ---------------------------------------------------------------------------
def bind(p, V, index=0):
    """Representatives for the loop variables of a path: each loop is looked at with one element."""
    todo = {l for e in p.events for l in e.loops} | {l for items in p.st.cont.values() for i in items for l in i.loops}
    todo |= {y[1] for e in p.events if e.kind in ("print", "write") for a in e.args for y in walk(a) if y and y[0] in ("elem", "idx") and len(y) > 1}
    for e in p.events:
        for a in e.args if e.kind in ("print", "write") else ():
            for y in walk(a):
                if y and y[0] == "loopvar" and y not in V.env and V.get(y) is None:
                    V.env[("idx", y)] = index
                    V.env[y] = index      # a counter
    again = True
    while again:
        again = False
        for L in list(todo):
            try:
                vs = list(V.ev(L))
            except (Unknown, TypeError):
                continue
            todo.discard(L)
            again = True
            if len(vs) == 1:
                V.env[elem(L)] = vs[0]
                V.env[("idx", L)] = index
    return V


class Dot:
    """A Graphviz document: nodes, edges and clusters with their attributes. ValueError when malformed."""

    def __init__(self, text):
        self.toks = self.lex(text)
        self.i = 0
        if self.peek()[1].lower() == "strict" and self.peek()[0] == "id":
            self.i += 1
        kind, v = self.take()
        if (kind, v.lower()) != ("id", "digraph"):
            raise ValueError("no digraph")
        if self.peek() != ("op", "{"):
            self.ident()
        self.top = self.block()
        if self.i != len(self.toks):
            raise ValueError("text after the graph")

    def lex(self, text):
        out, i = [], 0
        while i < len(text):
            c = text[i]
            if c.isspace():
                i += 1
            elif c == '"':
                j, val = i + 1, ""
                while True:
                    if j >= len(text):
                        raise ValueError("unterminated string")
                    if text[j] == "\\" and j + 1 < len(text) and text[j + 1] in '"\\':
                        val += text[j + 1]
                        j += 2
                    elif text[j] == '"':
                        break
                    else:
                        val += text[j]
                        j += 1
                out.append(("str", val))
                i = j + 1
            elif text.startswith("->", i):
                out.append(("op", "->"))
                i += 2
            elif text.startswith("//", i) or c == "#" and (i == 0 or text[i - 1] == "\n"):
                j = text.find("\n", i)
                i = len(text) if j < 0 else j
            elif c in "{}[]=;,:":
                out.append(("op", c))
                i += 1
            elif c.isalnum() or c in "_.-" or ord(c) > 127:
                j = i
                while j < len(text) and (text[j].isalnum() or text[j] in "_." or ord(text[j]) > 127 or j == i and c == "-"):
                    j += 1
                w = text[i:j]
                if w[0].isdigit() or w[0] in "-.":
                    float(w)
                elif "." in w:
                    raise ValueError(f"{w} is not an identifier")
                out.append(("id", w))
                i = j
            else:
                raise ValueError(f"unexpected {c!r}")
        return out

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else ("end", "")

    def take(self):
        t = self.peek()
        self.i += 1
        return t

    def ident(self):
        kind, v = self.take()
        if kind not in ("id", "str"):
            raise ValueError(f"identifier expected, not {v!r}")
        return v

    def attrs(self):
        out = {}
        while self.peek() == ("op", "["):
            self.take()
            while self.peek() != ("op", "]"):
                k = self.ident()
                if self.take() != ("op", "="):
                    raise ValueError("= expected")
                if k in out:
                    raise ValueError(f"{k} is given twice")
                out[k] = self.ident()
                if self.peek() in (("op", ","), ("op", ";")):
                    self.take()
            self.take()
        return out

    def block(self):
        if self.take() != ("op", "{"):
            raise ValueError("{ expected")
        b = {"nodes": [], "edges": [], "set": {}, "sub": []}
        while self.peek() != ("op", "}"):
            if self.peek()[0] == "end":
                raise ValueError("} expected")
            if self.peek() == ("op", ";"):
                self.take()
                continue
            word = self.peek()[0] == "id"
            v = self.ident()
            if word and v.lower() == "subgraph":
                name = self.ident() if self.peek() != ("op", "{") else ""
                b["sub"].append((name, self.block()))
            elif self.peek() == ("op", "="):
                self.take()
                b["set"][v] = self.ident()
            elif self.peek() == ("op", "->"):
                self.take()
                b["edges"].append((v, self.ident(), self.attrs()))
            else:
                a = self.attrs()
                if not word or v.lower() not in ("node", "edge", "graph"):
                    b["nodes"].append((v, a))
        self.take()
        return b


ODD = ["plain", "pkg.mod", "say " + chr(34) + "hi" + chr(34), "C:\\dir\\", "\\" + chr(34) + " -> x; {", "two\nlines", "a -> b [", "node", "subgraph", "1x"]


def C24(ck):
    R = ck.rule
    R("nodes", "there is one statement per node reachable from the roots, with the attributes computed for it")
    R("edges", "there is one statement per edge leaving such a node, in its direction and with the attributes computed for it")
    R("clusters", "there is one closed cluster per group, with its name and nodes")
    R("quote", "every identifier and group name gives valid output that stands for it")
    R("all", "all nodes, edges, groups and their nodes are gone through")
    R("dashed", "an edge is dashed exactly when all imports behind it are optional")
    R("drawn", "roots are marked, and an edge is drawn as that to the containing package exactly when the target's name contains the source's")
    R("groups", "each reachable module or script node of a distribution is in the group of that distribution, nothing else is grouped")
    export_dot(ck)
    dashed(ck)
    roots_drawn(ck)
    groups(ck)
    ck.instances("nodes", 30)
    ck.instances("quote", 30)
    ck.instances("dashed", 4)
    ck.instances("groups", 4)


def export_dot(ck):
    fi = ck.repo.func("_dotbuilder:export_to_dot")
    ck.need(fi, "export_to_dot not found")
    cons = "export_to_dot"
    f = ("sym", "file")
    seen = 0
    clusters = set()
    for p in ck.run(ck.engine(skip_prev=True), fi, init=graph_init(GRAPH)):
        w = p.where()
        if p.kind == "raise":
            ck.ob("nodes", False, cons, w, f"raises {pretty(p.value)}")
            continue
        src = iterated(p, "iter_graph", GRAPH)
        ck.ob("nodes", bool(src), cons, w, "the nodes reachable from the roots are not listed")
        if not src:
            continue
        L = src[0].ret
        bad = [e for e in p.evs("loopend") if e.fn != "exhausted"]
        ck.ob("all", not bad, cons, bad[0].where if bad else w, f"a loop ends early ({p.cond_text()})")
        ps = [x for x in pieces(p) if not any(l[0] == "prev" for l in x[1].loops)]
        ck.ob("nodes", all(s == f for s, _ in ps), cons, w, "part of the document is written elsewhere")
        for has in range(64):
            hn, he, an, ae, hg, hi = (bool(has >> b & 1) for b in range(6))
            if not hn and (he or an or ae) or not he and ae or not hg and hi:
                continue
            for n, x in enumerate(ODD):
                N, T, G, E = node(SOURCE, x), node(SOURCE, "t" + x), node(SOURCE, "g" + x), Rep(("set",))
                na, ea = {"shape": "box"} if an else {}, {"style": "dashed"} if ae else {}
                gs = [("wheel " + x, "tab", [G] if hi else [])] if hg else []

                def dyn(fn, *a):
                    want = {"node": ((N,), na), "edge": ((N, T, E), ea), "group": (("graph",), gs)}.get(fn)
                    if want is None:
                        raise Unknown(fn)
                    return want[1] if tuple(a) == want[0] else {"wrong": "arguments"} if fn != "group" else []
                env = {("sym", "format_node"): "node", ("sym", "format_edge"): "edge", ("sym", "group_nodes"): "group", GRAPH: "graph", L: [N] if hn else []}
                V = Values(p, env, {"<dyn>": dyn}, universe={L: [N]})
                if hn:
                    env[elem(L)] = N
                for q in p.evs("query", "outgoing"):
                    if q.recv == GRAPH and q.arg("source", 0) == elem(L) and L in q.loops:
                        env[q.ret] = [(E, T)] if he else []
                bind(p, V, 3)
                if V.holds() is False:
                    continue
                try:
                    text = "".join(y.text(V) for _, y in ps)
                    names = []
                    for k in (4, 5):
                        W = Values(p, dict(V.env), V.funcs, V.universe)
                        for key in list(W.env):
                            if key[0] in ("idx", "loopvar"):
                                W.env[key] = k
                        names += [y[0] for y in Dot("".join(z.text(W) for _, z in ps)).top["sub"]]
                except Unknown as exc:
                    ck.ob("nodes", False, cons, w, f"what is written cannot be followed ({exc})")
                    continue
                except ValueError as exc:
                    ck.ob("quote" if n > 1 else "nodes", False, cons, w, f"for a node named {x!r} the output is not valid: {exc} ({p.cond_text()})")
                    continue
                try:
                    d = Dot(text).top
                except ValueError as exc:
                    ck.ob("quote" if n > 1 else "nodes", False, cons, w, f"for a node named {x!r} the output is not valid: {exc}")
                    continue
                seen += 1
                r = "quote" if n > 1 else None
                ck.ob(r or "nodes", d["nodes"] == ([(x, na)] if hn else []), cons, w, f"a node named {x!r} with attributes {na} is written as {d['nodes']}")
                ck.ob(r or "edges", d["edges"] == ([(x, "t" + x, ea)] if he else []), cons, w, f"an edge from {x!r} to {'t' + x!r} with attributes {ea} is written as {d['edges']}")
                got = [(s["set"].get("label"), [a for a, _ in s["nodes"]], s["edges"], s["sub"]) for _, s in d["sub"]]
                ck.ob(r or "clusters", got == [(g[0], [m.attrs["identifier"] for m in g[2]], [], []) for g in gs], cons, w, f"the group {[g[0] for g in gs]} is written as {got}")
                ck.ob(r or "clusters", all(a.startswith("cluster") for a, _ in d["sub"]), cons, w, "a group is not written as a cluster")
                if hg:
                    clusters.add(tuple(names))
                    ck.ob("clusters", len(set(names)) == len(names), cons, w, f"two groups are written as the same cluster {names}")
    ck.ob("nodes", seen >= 20 and bool(clusters), cons, cons, "no complete document is ever written")


def dict_of(p, t):
    """Constant entries of a dictionary: {key: value term}; None when it is not known."""
    if t not in p.st.cont or p.st.ckind.get(t) != "dict" or p.st.minus.get(t):
        return None
    out = {}
    for i in p.st.cont[t]:
        if i.mode != "item" or i.conds or not is_const(i.key):
            return None
        out[i.key[2]] = i.val
    return out


def dashed(ck):
    fi = ck.repo.func("__main__:format_edge")
    ck.need(fi, "format_edge not found")
    cons = "format_edge"
    name = fi.params()[2]
    for size in (1, 2, 3):
        imports = [("sym", f"import-{i}") for i in range(size)]

        def init(eng, st, fr):
            o = eng.new_obj(st, "set", [Item("item", x) for x in imports])
            st.env[(fr.fid, name)] = o
        for p in ck.run(ck.engine(), fi, init=init, label=f"{cons} with {size} imports"):
            w = p.where()
            if p.kind == "raise":
                ck.ob("dashed", False, cons, w, f"raises {pretty(p.value)}")
                continue
            d = dict_of(p, p.value)
            if not ck.ob("dashed", d is not None, cons, w, "the attributes of an edge cannot be followed"):
                continue
            got = d.get("style") == C("dashed")
            ck.ob("dashed", "style" not in d or got, cons, w, "an edge has another style than dashed")
            opt = [p.truthy(("attr", x, "is_optional")) for x in imports]
            if got:
                ck.ob("dashed", all(o is True for o in opt), cons, w, f"an edge is dashed though not all imports behind it are known to be optional ({p.cond_text()})")
            else:
                ck.ob("dashed", any(o is False for o in opt), cons, w, f"an edge is not dashed though all imports behind it may be optional ({p.cond_text()})")
            src, dst = (("sym", x) for x in fi.params()[:2])
            for a, b, inside in PLACES:
                V = Values(p, {src: node(("Package", "Module", "BaseNode"), a), dst: node(("Package", "Module", "BaseNode"), b)})
                if V.holds({src, dst}) is not False:
                    ck.ob("drawn", ("arrowhead" in d) is inside, cons, w, f"the edge from {a} to {b} is {'' if 'arrowhead' in d else 'not '}drawn as that to a containing package")


PLACES = (("a.b", "a", True), ("a.b.c", "a.b", True), ("a", "a.b", False), ("ab", "a", False), ("a.bc", "a.b", False), ("b.a", "a", False), ("a", "a", False), ("a_b", "a", False))


def roots_drawn(ck):
    fi = ck.repo.func("__main__:format_node")
    ck.need(fi, "format_node not found")
    cons = "format_node"
    it, mg = (("sym", x) for x in fi.params()[:2])
    for p in ck.run(ck.engine(types={mg: ("ModuleGraph",)}), fi):
        w = p.where()
        if p.kind == "raise" or p.value not in p.st.cont:
            ck.ob("drawn", False, cons, w, f"the attributes of a node are {pretty(p.value)}")
            continue
        roots = [e.ret for e in p.evs("query", "roots") if e.recv == mg]
        of_roots = lambda t: any(r in set(walk(t)) for r in roots) or any(of_roots(i.val) for i in p.st.cont.get(t, ()) if i.mode == "seg")  # noqa: E731
        known = [v for k, v in p.st.facts.items() if k[0] == "in" and k[1] == it and of_roots(k[2])]
        known += [v for k, v in p.st.facts.items() if k[0] == "eq" and it in k[1:] and any(r in set(walk(k)) for r in roots)]
        mark = any(i.mode == "item" and i.key == C("root") and not i.conds for i in p.st.cont[p.value])
        if mark:
            ck.ob("drawn", any(known), cons, w, f"a node that is not known to be a root is marked as one ({p.cond_text()})")
        else:
            ck.ob("drawn", not any(known) and (bool(known) or any(p.st.facts.get(("nonempty", r)) is False for r in roots)), cons, w, f"a root is not marked ({p.cond_text()})")


def groups(ck):
    fi = ck.repo.func("__main__:group_nodes")
    ck.need(fi, "group_nodes not found")
    cons = "group_nodes"
    kinds = set()
    for p in ck.run(ck.engine(skip_prev=True), fi, init=graph_init(GRAPH)):
        w = p.where()
        if p.kind == "raise":
            ck.ob("groups", False, cons, w, f"raises {pretty(p.value)}")
            continue
        src = iterated(p, "iter_graph", GRAPH)
        if not ck.ob("groups", len(src) == 1, cons, w, "the nodes reachable from the roots are not listed once"):
            continue
        L = src[0].ret
        if p.empty_iter(L):
            continue
        ck.ob("groups", not [e for e in p.evs("loopend") if e.fn != "exhausted"], cons, w, f"not all nodes are looked at ({p.cond_text()})")
        N = elem(L)
        D = ("attr", N, "distribution")
        base = p.isinst(N, "BaseNode")
        if base is None and p.isinst(N, "PyPIDistribution") is not None:
            base = not p.isinst(N, "PyPIDistribution")
        has = p.is_none(D)
        has = p.truthy(D) if has is None else not has
        if has is None:
            has = p.isinst(D, "PyPIDistribution")
        put = [e for e in p.evs("mut") if e.fn in ("append", "add") and e.args == (N,)]
        made = [(o, i) for o, items in p.st.cont.items() if p.st.ckind.get(o) == "list" for i in items if i.mode == "item" and i.val == N]
        if base is False or has is False:
            kinds.add("none")
            ck.ob("groups", not put and not made, cons, w, f"a node that belongs to no distribution is grouped ({p.cond_text()})")
            continue
        if not ck.ob("groups", base is True and has is True, cons, w, f"a node is left out of the groups ({p.cond_text()})" if not put else f"a node may be grouped that is not a module or script of a distribution ({p.cond_text()})"):
            continue
        keys = (("attr", D, "name"), ("attr", D, "identifier"), D)
        dicts = {o for o in p.st.cont if p.st.ckind.get(o) == "dict"}
        # the list the node went into, and where that list is filed
        fresh = [(o, i) for o, i in made]
        ok, label = False, None
        if len(put) + len([1 for o, i in fresh if not any(e.recv == o for e in put)]) == 1:
            o = put[0].recv if put else fresh[0][0]
            if o in p.st.cont:
                kinds.add("new")
                sets = [e for e in p.evs("mut", "set") if e.recv in dicts and e.args[0] in keys]
                ck.ob("groups", all(dict(e.kw).get("was") == FALSE or p.is_none(("item", e.recv, e.args[0])) is True for e in sets), cons, w, "a group may replace one that is there already")
                for d in dicts:
                    for i in p.st.cont[d]:
                        if i.mode == "item" and i.key in keys and (i.val == o or i.val[0] == "tup" and o in i.val[1]):
                            ok = True
                            label = i.val[1][0] if i.val[0] == "tup" else i.key
            else:
                kinds.add("old")
                b = o
                while b[0] == "item" and b[1] not in dicts:
                    b = b[1]
                ok = b[0] == "item" and b[1] in dicts and b[2] in keys and (o == b or o == ("item", b, C(-1)) or o == ("item", b, C(2)))
        ck.ob("groups", ok, cons, w, f"a node of a distribution does not get into the one group of that distribution ({p.cond_text()})")
        if label is not None:
            ck.ob("groups", label in keys[:2], cons, w, "a group is not named after its distribution")
        # the result hands out the groups
        v = p.value
        ok = v is not None and (v[0] in ("values_of",) and v[1] in dicts or v in p.st.cont or v[0] in ("iter_of", "gen"))
        ys = p.evs("yield")
        if v == NONE and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fi.node)):
            ok = True
        for y in ys:
            a = y.args[0]
            ok = a[0] == "tup" and len(a[1]) == 3 or a[0] in ("elem", "item")
        ck.ob("groups", ok, cons, w, f"the groups are not what is returned but {pretty(v)}")
    ck.ob("groups", {"none", "new"} <= kinds, cons, cons, "no node is ever grouped")


def C26(ck):
    R = ck.rule
    R("all", "every callback is called once, newest first, with the arguments given")
    R("first", "the first answer that is not None is the result and the rest is not called")
    R("clear", "clearing a list empties it")
    R("own", "every list has callbacks of its own")
    call_rule(ck, "all", "CallbackList", False)
    call_rule(ck, "first", "FirstNotNone", True)
    for c in ("CallbackList", "FirstNotNone"):
        clear_rule(ck, "clear", c)
        own_rule(ck, "own", c, {x.attr for m in ck.repo.classes[c].methods.values() for x in ast.walk(m.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr not in ck.repo.classes[c].methods})
    ck.instances("all", 4)
    ck.instances("first", 5)


# -- C25 ---------------------------------------------------------------------------
ARGS = ("sym", "args")
MG = ("sym", "mg")
ADDERS = {"MODULE": "add_module", "SCRIPT": "add_script", "DISTRIBUTION": "add_distribution"}
SYSPATH = ("ext", "sys.path")


def opt(name):
    return ("attr", ARGS, name)


def C25(ck):
    R = ck.rule
    R("names", "every positional name is added, as the selected kind of node, to the one graph that is returned")
    R("path", "all --path directories are on the search path, in the order given and before what was there, when names are added; the search path is restored afterwards")
    R("excludes", "all excludes are registered before anything is added")
    R("options", "the options mean what they say, and repeated ones accumulate")
    R("format", "the graph is written once, in the selected format")
    R("output", "the graph is written to the selected file or to standard output; a file that cannot be opened ends the program with status 1")
    R("encoding", "every name can be written to the selected file, whatever the locale")
    R("quiet", "building the graph writes nothing to standard output")
    R("main", "the program parses its arguments, builds the graph and writes it")
    make_graph(ck)
    Options(ck).check()
    print_graph(ck)
    format_graph(ck)
    quiet(ck)
    main_rule(ck)
    for r, n in (("names", 6), ("path", 6), ("excludes", 3), ("options", 12), ("format", 2), ("output", 3), ("main", 1)):
        ck.instances(r, n)
    ck.assumptions.append("argparse handles an option as its documentation says")


def quiet(ck):
    g = CallGraph(ck.repo)
    callers = {}
    for f in g.fns:
        for c in [x[0] for x in f.calls] + list(f.refs):
            callers.setdefault(c[0] if isinstance(c, tuple) else c, set()).add(f)
    may = {f for f in g.fns if f.qual in ("__main__:format_graph", "__main__:print_graph", "__main__:main")}
    grown = True
    while grown:
        more = {f for f in g.fns if f not in may and callers.get(f) and callers[f] <= may and f.module.name.endswith("__main__") and f.name not in ("make_graph", "parse_arguments")}
        may |= more
        grown = bool(more)
    for f in g.fns:
        a = f.node.args
        own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if f in may or "file" in own:
            continue
        bad = [x for s in f.node.body for x in ast.walk(s)
               if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and (x.func.id == "input" or x.func.id == "print" and "file" not in [k.arg for k in x.keywords])
               or isinstance(x, ast.Attribute) and x.attr in ("stdout", "__stdout__") and ast.unparse(x.value) == "sys"]
        ck.ob("quiet", not bad, f.path, f"{f.module.path}:{bad[0].lineno if bad else f.node.lineno}", f"{ast.unparse(bad[0])[:60] if bad else ''} writes to standard output")


def members(ck, name):
    ci = ck.repo.classes.get(name)
    ck.need(ci is not None, f"class {name} not found")
    return [("enum", name, m) for m in ci.consts]


def argument_field(name, value):
    def init(eng, st, fr):
        st.heap[(ARGS, name)] = value
    return init


def listed(p, t):
    """The sequence a value lists: [("one", x) | ("fwd"|"rev", L) | ("old",)]; None when it cannot be told."""
    if t == SYSPATH:
        return [("old",)]
    if t in p.st.cont:
        out = []
        for i in p.st.cont[t]:
            if i.conds:
                return None
            if i.mode == "seg":
                s = listed(p, i.val)
                if s is None:
                    return None
                out += s
            elif i.loops and i.val == elem(i.loops[-1]):
                s = listed(p, i.loops[-1])
                if s is None:
                    return None
                out += s
            elif i.loops:
                return None
            else:
                out.append(("one", i.val))
        return turned(p, t, out)
    if t[0] == "order_of":
        s = listed(p, t[2])
        return None if s is None or t[1] != "reversed" else flip(s)
    if t[0] == "cat" or t[:2] == ("op", "+") and len(t) == 4:
        out = []
        for x in t[1] if t[0] == "cat" else t[2:]:
            s = listed(p, x)
            if s is None:
                return None
            out += s
        return out
    if t[0] in ("attr", "sym", "item", "call"):
        return [("fwd", t)]
    return None


def flip(s):
    return [(({"fwd": "rev", "rev": "fwd"}.get(x[0], x[0]),) + x[1:]) for x in reversed(s)]


def turned(p, t, seq):
    n = sum(1 for e in p.evs("order") if e.recv == t and e.fn == "reversed")
    return flip(seq) if n % 2 else seq


def search_path(p, upto):
    """What sys.path lists before the event with index `upto`; None when it cannot be told."""
    cur = [("old",)]
    for e in p.events[:upto]:
        if e.kind == "setattr" and e.recv == ("ext", "sys") and e.fn == "path":
            s = listed(p, e.args[-1])
        elif e.recv != SYSPATH or e.kind not in ("mut", "setslice", "setpart", "dset", "ddel", "pop", "order"):
            continue
        else:
            s = None
            if e.kind == "setslice" and e.fn == "[:]":
                s = listed(p, e.args[-1])
            elif e.kind == "setpart" and dict(e.kw).get("lo") in (NONE, C(0)) and dict(e.kw).get("hi") == C(0):
                x = listed(p, e.args[0])
                s = None if x is None else x + cur
            elif e.kind == "mut" and e.fn == "insert" and len(e.args) == 2:
                at, v = e.args
                if not e.loops:
                    s = [("one", v)] + cur if at == C(0) else None
                elif v == elem(e.loops[-1]) and len(e.loops) == 1:
                    L = e.loops[-1]
                    x = [("fwd", L)] if L not in p.st.cont else listed(p, L)
                    if x is not None:
                        x = x if L in p.st.cont else turned(p, L, x)
                        s = flip(x) + cur if at == C(0) else x + cur if at == ("idx", L) else None
            elif e.kind == "mut" and e.fn in ("append", "extend"):
                x = None
                if e.fn == "extend":
                    x = listed(p, e.args[0])
                elif not e.loops:
                    x = [("one", e.args[0])]
                elif e.args[0] == elem(e.loops[-1]):
                    x = turned(p, e.loops[-1], [("fwd", e.loops[-1])])
                s = None if x is None else cur + x
        if s is None:
            return None
        if e.kind == "mut" or e.kind == "setpart":
            cur = s
        else:
            # sys.path within its own new value stands for what it listed before
            cur = [z for y in s for z in (cur if y == ("old",) else [y])]
    return cur


def make_graph(ck):
    from .nodes import net_effect
    fi = ck.repo.func("__main__:make_graph")
    ck.need(fi, "make_graph not found")
    cons = "make_graph"
    did = set()
    for kind in members(ck, "NodeType"):
        want = ADDERS.get(kind[2])
        # what the graph's own methods do is not looked into; they may fail
        eng = ck.engine(opaque_pred=lambda f: f.cls is not None and f.cls.name == "ModuleGraph",
                        raise_only={f"ModuleGraph.{m}" for m in list(ADDERS.values()) + ["add_excludes"]},
                        raises={f"ModuleGraph.{m}": ("ValueError", "KeyboardInterrupt") for m in list(ADDERS.values()) + ["add_excludes"]})
        for p in ck.run(eng, fi, init=argument_field("node_type", kind)):
            w = p.where()
            left = [x for x in net_effect(p) if x[1] == "path"]
            ck.ob("path", not left, cons, left[0][0].where if left else w, "the search path is not restored " + (f"when {p.value[1]} is raised" if p.kind == "raise" else "on return"))
            adds = [e for e in p.evs("call") if e.fn.split(".")[-1] in ADDERS.values() and e.fn.startswith("ModuleGraph.")]
            exc = [e for e in p.evs("call") if e.fn == "ModuleGraph.add_excludes"]
            graphs = {e.arg("self", 0) for e in adds + exc}
            ck.ob("names", len(graphs) <= 1 and all(g[0] == "obj" and g[2] == "ModuleGraph" for g in graphs), cons, w, "the names do not go to one new graph")
            for e in adds:
                ck.ob("names", want is not None and e.fn == f"ModuleGraph.{want}", cons, e.where, f"{e.fn} is called for {kind[2]}")
                arg = next(v for k, v in e.args.items() if k != "self")
                L = opt("name")
                ck.ob("names", stands_for_all(p, arg, e.loops, L), cons, e.where, f"what is added is {pretty(arg)}")
                now = search_path(p, e.idx)
                ends = [x for x in p.evs("loopend") if x.idx < e.idx and x.recv not in e.loops and x.fn != "exhausted"]
                ck.ob("path", not ends, cons, e.where, f"directories or excludes after some are passed over ({p.cond_text()})")
                ok = now == [("fwd", opt("path")), ("old",)] or p.empty_iter(opt("path")) and now is not None and [x for x in now if x != ("fwd", opt("path"))] == [("old",)]
                ck.ob("path", ok, cons, e.where, "the search path is not the directories given, in order, before the existing entries" +
                      (f" but {' + '.join(x[0] + ' ' + pretty(x[1]) if len(x) > 1 else 'existing' for x in now)}" if now is not None else ""))
                before = [x for x in exc if x.idx < e.idx and all_excluded(p, x)]
                ck.ob("excludes", bool(before) or no_excludes(p), cons, e.where, "names are added before the excludes are registered")
            if p.kind == "raise":
                v = p.value
                ck.ob("names", isinstance(v[2], tuple) and str(v[2][0]).startswith("ModuleGraph."), cons, w, f"{kind[2]}: raises {pretty(v)}")
                continue
            ck.ob("excludes", all(stands_for_all(p, x, e.loops, opt("excludes"), whole=True) for e in exc for x in [e.arg("excluded_names", 1)]), cons, w, "something else is excluded")
            ck.ob("excludes", any(all_excluded(p, x) for x in exc) or no_excludes(p), cons, w, "the excludes are not registered")
            if not p.empty_iter(opt("name")):
                did.add(kind[2])
                ck.ob("names", len(adds) == 1, cons, w, f"{kind[2]}: a name is {'not added' if not adds else 'added more than once'} ({p.cond_text()})")
                ends = [x for x in p.evs("loopend") if adds and x.recv in adds[0].loops]
                ck.ob("names", all(x.fn == "exhausted" for x in ends), cons, w, f"names after some name are not added ({p.cond_text()})")
            ck.ob("names", p.value[0] == "obj" and p.value[2] == "ModuleGraph" and (not graphs or p.value in graphs), cons, w, f"the result is {pretty(p.value)}, not the graph that was built")
    ck.ob("names", did == set(ADDERS), cons, cons, f"names are never added as {sorted(set(ADDERS) - did)}")


def stands_for_all(p, t, loops, L, whole=False):
    """Is t one of L in a loop over all of L (or, `whole`, all of L)?"""
    def is_l(x):
        s = None if x is None else listed(p, x)
        return x == L or s is not None and [y[1:] for y in s] == [(L,)] and s[0][0] in ("fwd", "rev")
    if whole and is_l(t):
        return True
    if t is not None and whole and t in p.st.cont:
        i = p.st.cont[t]
        t = i[0].val if len(i) == 1 else t
    elif t is not None and whole and t[0] == "tup" and len(t[1]) == 1:
        t = t[1][0]
    return t is not None and t[0] == "elem" and t[1] in loops and is_l(t[1])


def no_excludes(p):
    return p.empty_iter(opt("excludes")) or p.truthy(opt("excludes")) is False


def all_excluded(p, e):
    return stands_for_all(p, e.arg("excluded_names", 1), e.loops, opt("excludes"), whole=True)


class Options:
    """The options a parser is told about."""

    def __init__(self, ck):
        self.ck = ck
        self.fi = ck.repo.func("__main__:parse_arguments")
        ck.need(self.fi, "parse_arguments not found")
        self.cons = "parse_arguments"

    def effect(self, p, o):
        """(kind, value) of an option: what it does to its destination; kind is None when that cannot be told."""
        kw = o["kw"]
        a = kw.get("action", C("store"))
        nargs, typ = kw.get("nargs", NONE), kw.get("type", NONE)
        plain = typ in (NONE, ("ext", "str"))
        if is_const(a):
            if a == C("store_const"):
                return "set", kw.get("const", NONE)
            if a in (C("store_true"), C("store_false")):
                return "set", C(a == C("store_true"))
            if a == C("store"):
                if nargs == NONE:
                    return "store", typ
                return ("store all" if nargs == C("+") and plain else None), typ
            if a == C("append"):
                return ("append" if nargs == NONE and plain else None), None
            if a == C("extend"):
                return ("append" if nargs == C(1) and plain else None), None
            return None, None
        if a[0] == "cls" and a[1] in self.ck.repo.classes:
            return self.custom(p, o, self.ck.repo.classes[a[1]])
        return None, None

    def custom(self, p, o, ci):
        ck = self.ck
        ns, values = ("sym", "namespace"), ("sym", "values")
        call = ck.repo.find_method(ci, "__call__")
        init = ck.repo.find_method(ci, "__init__")
        if call is None:
            return None, None
        held = {k: o["kw"].get(k, NONE) for k in ("nargs", "const", "default")}
        held["dest"] = C(o["dest"])
        heap = {}
        if init is not None:
            rs = ck.run(ck.engine(), init, args={k: v for k, v in held.items() if k in init.params()})
            if len(rs) != 1 or rs[0].kind == "raise":
                return None, None
            q = rs[0]
            heap = {a: v for (b, a), v in q.st.heap.items() if b == SELF}
            for e in q.evs("super"):
                names = ("option_strings", "dest", "nargs", "const", "default")
                given = dict(zip(names, e.args)) | dict(e.kw)
                for k in ("nargs", "const", "dest"):
                    if k in given or k in init.params():
                        held[k] = given.get(k, NONE)
        takes = held["nargs"] != C(0)

        def start(eng, st, fr):
            for k, v in held.items():
                st.heap[(SELF, k)] = v
            for k, v in heap.items():
                st.heap[(SELF, k)] = v
        names = call.params()
        if len(names) < 4:
            return None, None
        res = set()
        for q in ck.run(ck.engine(raise_only=set()), call, args={names[2]: ns, names[3]: values}, init=start):
            if q.kind == "raise":
                return None, None
            given = [held["const"]] + list(heap.values())
            if any(q.empty_iter(x[2] if x[0] == "order_of" else x) for x in given):
                continue
            res.add(self.acts(q, ns, values, C(o["dest"]), takes, held["const"]))
        return res.pop() if len(res) == 1 else (None, None)

    def acts(self, q, ns, values, dest, takes, const):
        old = {("attr", ns, dest[2])} | {e.ret for e in q.evs("call", "getattr") if e.args[:2] == (ns, dest)}
        did = []
        for e in q.events:
            if e.kind in ("mut", "setslice", "dset") and (e.recv in old):
                if e.fn in ("extend", "__iadd__", "iadd") and not e.loops:
                    did.append(("extend", e.args[0], True))
                elif e.fn == "append" and len(e.loops) == 1 and e.args[0] == elem(e.loops[0]):
                    did.append(("extend", e.loops[0], True))
                else:
                    did.append((None, None, True))
            elif e.kind == "setattr" and e.recv == ns:
                if e.fn != dest[2]:
                    did.append((None, None, False))
                elif e.args[-1] not in old:
                    did.append(self.newlist(q, e.args[-1], old))
            elif e.kind == "call" and e.fn == "setattr" and e.args[0] == ns:
                did.append(self.newlist(q, e.args[2], old) if e.args[1] == dest else (None, None, False))
        if len(did) != 1 or did[0][0] is None:
            # setting the very list back is no change
            return None, None
        _, what, inplace = did[0]
        if takes:
            return None, None
        return ("extend in place" if inplace else "extend"), what

    def newlist(self, q, v, old):
        if v in q.st.cont:
            i = q.st.cont[v]
            if len(i) == 2 and all(x.mode == "seg" for x in i) and i[0].val in old:
                return "extend", i[1].val, False
        if v[0] == "cat" and len(v[1]) == 2 and v[1][0] in old:
            return "extend", v[1][1], False
        if v[:2] == ("op", "+") and v[2] in old:
            return "extend", v[3], False
        return None, None, False

    def parsed(self, p, t):
        return t is not None and t[0] == "call" and t[1] in (".parse_args", ".parse_intermixed_args") and t[2] and t[2][0][0] == "call" and t[2][0][1] == "argparse.ArgumentParser"

    def check(self):
        ck, cons = self.ck, self.cons
        kinds = {m: ("enum", "NodeType", m) for m in ADDERS}
        paths = ck.run(ck.engine(raise_only=set()), self.fi)
        for p in paths:
            w = p.where()
            if p.kind == "raise":
                ck.ob("options", isinstance(p.value[1], str) and p.value[1] == "SystemExit", cons, w, f"raises {pretty(p.value)}")
                continue
            ns = p.value
            ck.ob("options", self.parsed(p, ns) and len(ns[2]) == 2 and ns[2][1] == ("sym", "argv"), cons, w, f"the result is {pretty(ns)[-60:]}, not the parsed arguments")
            if not self.parsed(p, ns):
                continue
            parser = ns[2][0]
            opts = []
            for e in p.evs("call", ".add_argument"):
                strs = [a[2] if is_const(a) else None for a in e.args]
                if None in strs or e.loops or any(k == "**" for k, _ in e.kw):
                    ck.ob("options", False, cons, e.where, "an option cannot be followed")
                    continue
                kw = dict(e.kw)
                flags = [s for s in strs if s.startswith("-")]
                d = kw.get("dest")
                longs = [s for s in flags if s.startswith("--")] or flags
                dest = d[2] if d is not None and is_const(d) else longs[0].lstrip("-").replace("-", "_") if longs else strs[0]
                opts.append(dict(flags=flags or [strs[0]], pos=not flags, dest=dest, kw=kw, e=e, group=e.recv))
            pre = {}
            for o in opts:
                if o["kw"].get("default") != ("ext", "argparse.SUPPRESS"):
                    pre.setdefault(o["dest"], (o["kw"].get("default", FALSE if o["kw"].get("action") == C("store_true") else NONE), o["e"]))
            for e in p.evs("call", ".set_defaults"):
                for k, v in e.kw:
                    pre[k] = (v, e)
            by = {f: o for o in opts for f in o["flags"]}

            def has(flag, dest, kind, value=None, what=""):
                o = by.get(flag)
                if not ck.ob("options", o is not None, f"{cons}:{flag}", w, f"there is no option {flag}"):
                    return None
                k, v = self.effect(p, o)
                ok = o["dest"] == dest and k in kind and (value is None or v is not None and value(v))
                ck.ob("options", ok, f"{cons}:{flag}", o["e"].where, f"{flag} does not {what}")
                alone = o["group"][0] == "call" and o["group"][1] == ".add_mutually_exclusive_group"
                ck.ob("options", not alone, f"{cons}:{flag}", o["e"].where, f"{flag} cannot be combined with other options")
                ck.ob("options", o["kw"].get("required", FALSE) == FALSE, f"{cons}:{flag}", o["e"].where, f"{flag} has to be given")
                return k
            for flags, m in ((("-m", "--module"), "MODULE"), (("-s", "--script"), "SCRIPT"), (("-d", "--distribution"), "DISTRIBUTION")):
                for f in flags:
                    has(f, "node_type", ("set",), lambda v, _m=m: v == kinds[_m], f"select {m.lower()} names")
            ck.ob("options", pre.get("node_type", (None,))[0] == kinds["MODULE"], f"{cons}:node_type", pre["node_type"][1].where if "node_type" in pre else w,
                  "names are not those of modules unless another kind is selected")
            inplace = {}
            for f in ("-x", "--exclude"):
                has(f, "excludes", ("append",), None, "add one name to the excludes")
            if has("--exclude-stdlib", "excludes", ("extend", "extend in place"), self.stdlib, "add the names of the standard library to the excludes") == "extend in place":
                inplace["excludes"] = True
            for f in ("-p", "--path"):
                has(f, "path", ("append",), None, "add one directory to the path")
            for dest in ("excludes", "path"):
                v, e = pre.get(dest, (None, None))
                # make_graph goes through the list, so there has to be one
                ok = v is not None and v in p.st.cont and not p.st.cont[v] and v[2] == "list"
                if not ok and v is not None and not inplace.get(dest):
                    ok = v == ("tup", ()) or v[0] == "glob" and self.empty_list(v)
                ck.ob("options", ok, f"{cons}:{dest}", e.where if e else w, f"{dest} does not start as a new empty list")
                others = [d for d in pre if d != dest and v is not None and pre[d][0] == v and v in p.st.cont and inplace.get(dest)]
                ck.ob("options", not others, f"{cons}:{dest}", w, f"{dest} shares its list with {others}")
            for f in ("-o", "--output"):
                has(f, "output_file", ("store",), lambda v: v in (NONE, ("ext", "str")), "take the name of the output file")
            ck.ob("options", pre.get("output_file", (None,))[0] == NONE, f"{cons}:output_file", w, "output does not go to standard output by default")
            self.output_format(p, by, pre, ns, has)
            pos = [o for o in opts if o["pos"]]
            ok = len(pos) == 1 and pos[0]["dest"] == "name" and self.effect(p, pos[0])[0] == "store all"
            ck.ob("options", ok, f"{cons}:name", w, "the positional arguments are not all the names")
            for e in p.evs("setattr"):
                if e.recv == ns and e.fn != "output_format":
                    ck.ob("options", False, cons, e.where, f"what was parsed for {e.fn} is replaced")
            for e in p.evs(("mut", "setslice", "dset", "pop", "order")):
                if e.recv is not None and e.recv[0] == "attr" and e.recv[1] == ns:
                    ck.ob("options", False, cons, e.where, f"what was parsed for {e.recv[2]} is changed")
        ck.ob("options", any(p.kind == "ret" for p in paths), cons, cons, "arguments are never parsed")

    def empty_list(self, v):
        mod, _, name = v[1].partition(":")
        m = self.ck.repo.modules.get(mod)
        for n in m.tree.body if m else ():
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and any(isinstance(t, ast.Name) and t.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target])):
                return isinstance(n.value, (ast.List, ast.Tuple)) and not n.value.elts
        return False

    def stdlib(self, v):
        while v[0] == "order_of":
            v = v[2]
        return v == ("ext", "sys.stdlib_module_names") or v[0] == "call" and v[1] in ("sorted", "list", "tuple") and v[2] and v[2][0] == ("ext", "sys.stdlib_module_names")

    def output_format(self, p, by, pre, ns, has):
        ck, cons = self.ck, self.cons
        ms = members(ck, "OutputFormat")
        ci = ck.repo.classes["OutputFormat"]
        values = {m: ast.literal_eval(ci.consts[m[2]]) for m in ms}
        of = ("cls", "OutputFormat")
        for f in ("-f", "--format"):
            has(f, "output_format", ("store",), None, "take the output format")
        o = by.get("--format")
        if o is None:
            return
        typ = o["kw"].get("type", NONE)
        final = p.st.heap.get((ns, "output_format"))
        default = pre.get("output_format", (NONE,))[0]
        raw = ("attr", ns, "output_format")
        w = o["e"].where
        if typ == of:
            ok = final in (None, raw) and (default in ms or is_const(default) and default[2] in values.values())
        else:
            ok = typ in (NONE, ("ext", "str")) and final is not None and final[0] in ("call", "new", "item", "elem") and mentions_of(final, raw)
            ok = ok and (final[1] == "OutputFormat" and final[2] == (raw,) or final == ("item", of, raw))
            ok = ok and is_const(default) and default[2] in values.values()
        ck.ob("options", ok, f"{cons}:output_format", w, "the format is not one of the output formats")
        html = [m for m in ms if m[2] == "HTML"]
        ck.ob("options", bool(html) and default in (html[0], C(values[html[0]])), f"{cons}:output_format", w, "the format is not HTML unless another one is selected")
        ck.ob("options", set(values.values()) >= {"html", "dot"}, f"{cons}:output_format", w, "a format cannot be selected by its name")
        c = o["kw"].get("choices")
        if c is not None:
            got = self.choices(p, c, of, values)
            ck.ob("options", got is not None and set(values.values()) <= set(got), f"{cons}:output_format", w, "some format cannot be selected")

    def choices(self, p, c, of, values):
        if c == of:
            return list(values.values())
        if c[0] == "tup":
            return [x[2] for x in c[1] if is_const(x)]
        if c in p.st.cont:
            out = []
            for i in p.st.cont[c]:
                if is_const(i.val):
                    out.append(i.val[2])
                elif i.val[0] == "enum":
                    out.append(values.get(i.val))
                elif i.mode == "seg" and i.val == of:
                    out += values.values()
                elif i.loops and not i.conds and i.loops[-1] == of and i.val in (("attr", elem(of), "value"), elem(of)):
                    out += values.values()
                else:
                    return None
            return out
        return None


def mentions_of(t, x):
    return any(y == x for y in walk(t))


EXPORTERS = {"HTML": "export_to_html", "GRAPHVIZ": "export_to_dot"}


def print_graph(ck):
    fi = ck.repo.func("__main__:print_graph")
    ck.need(fi, "print_graph not found")
    cons = "print_graph"
    f = ("sym", "file")
    a = fi.node.args.args
    ck.need(len(a) == 3, "parameters of print_graph")
    for m in members(ck, "OutputFormat"):
        want = EXPORTERS.get(m[2])
        for p in ck.run(ck.engine(opaque=set(EXPORTERS.values())), fi, label=f"print_graph {m[2]}", args={"output_format": m}):
            w = p.where()
            if p.kind == "raise":
                ck.ob("format", False, cons, w, f"{m[2]}: raises {pretty(p.value)}")
                continue
            es = [e for e in p.evs("call") if e.fn in EXPORTERS.values()]
            ok = want is not None and len(es) == 1 and es[0].fn == want and not es[0].loops
            ck.ob("format", ok, cons, w, f"{m[2]}: the graph is written by {[e.fn for e in es]} ({p.cond_text()})")
            for e in es:
                ck.ob("format", e.arg("file", 0) == f and e.arg("graph", 1) == MG, cons, e.where, "something else is written, or somewhere else")
                for name, n in (("format_node", 1), ("format_edge", 3), ("group_nodes", 1)):
                    v = e.args.get(name)
                    if e.fn == "export_to_dot" and v is not None and v != NONE:
                        ck.ob("format", fits(ck, p, v, n), cons, e.where, f"{name} cannot be called with {n} argument(s)")
            ck.ob("format", not [x for x in pieces(p)], cons, w, "something else is written")


def fits(ck, p, v, n):
    """Can v be called with n positional arguments?"""
    if v[0] == "partial":
        f, bound, kw = v[1], v[2], {v[3][i][0] for i in range(len(v[3]))} if len(v) > 3 and v[3] and isinstance(v[3][0], tuple) else {x[0] for x in v[3:] if x}
    else:
        f, bound, kw = v, (), set()
    if f[0] == "func":
        node = p.eng.fi_by_qual(f[1]).node
    elif f[0] == "clo":
        node = p.eng._closures[f[1]][0]
    else:
        return True
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    free = [x for x in names[len(bound):]]
    need = [x for x in names[:len(names) - len(a.defaults)][len(bound):] if x not in kw]
    usable = free[:next((i for i, x in enumerate(free) if x in kw), len(free))]
    kwneed = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in kw]
    return not kwneed and len(need) <= n and (len(usable) >= n or a.vararg is not None) and all(x in usable[:n] for x in need)


def format_graph(ck):
    fi = ck.repo.func("__main__:format_graph")
    ck.need(fi, "format_graph not found")
    cons = "format_graph"
    F = opt("output_file")
    did = set()
    fails = ("FileNotFoundError", "NotADirectoryError", "PermissionError", "IsADirectoryError", "OSError")
    openers = ("open", "io.open", ".open")
    for p in ck.run(ck.engine(opaque={"print_graph"}, raises={o: fails for o in openers}, raise_only=set(openers)), fi):
        w = p.where()
        outs = p.evs("call", "print_graph")
        opens = [e for e in p.evs("call") if e.fn in openers]
        none = p.is_none(F)
        if none is None:
            none = None if p.truthy(F) is None else not p.truthy(F)
        for e in outs:
            ck.ob("output", e.arg("mg", 2) == MG and e.arg("output_format", 1) == opt("output_format") and not e.loops, cons, e.where, "something else is written")
        if p.kind == "raise":
            v = p.value
            failed = [e for e in p.evs("handler")]
            ck.ob("output", none is False and v[1] == "SystemExit" and exit_status(v) == 1, cons, w, f"raises {pretty(v)}, not an exit with status 1 for a file that cannot be opened")
            ck.ob("output", bool(opens) and bool(failed) and not outs, cons, w, "the program ends early though the file was opened")
            did.add("fail")
            continue
        bad = [e for e in p.evs("handler")]
        ck.ob("output", not bad, cons, w, "a file that cannot be opened does not end the program")
        ck.ob("output", len(outs) == 1, cons, w, f"the graph is written {len(outs)} times")
        if not outs:
            continue
        f = outs[0].arg("file", 0)
        if none is True:
            did.add("stdout")
            ck.ob("output", f == ("ext", "sys.stdout") and not opens, cons, w, f"without an output file the graph goes to {pretty(f)}")
        elif none is False:
            did.add("file")
            ok = len(opens) == 1 and f == opens[0].ret
            ck.ob("output", ok, cons, w, f"with an output file the graph goes to {pretty(f)}")
            if ok:
                self_open(ck, p, cons, opens[0], F)
                ex = [e for e in p.evs("exit") if e.recv == f] + [e for e in p.evs("call", ".close") if f in (e.recv,) + tuple(e.args)]
                ck.ob("output", any(e.idx > outs[0].idx for e in ex), cons, w, "the output file is not closed after the graph is written")
        else:
            ck.ob("output", False, cons, w, "where the graph goes does not depend on the output file")
    ck.ob("output", did == {"fail", "stdout", "file"}, cons, cons, f"the graph is never written for {sorted({'stdout', 'file', 'fail'} - did)}")


def self_open(ck, p, cons, e, F):
    a = list(e.args)
    if e.fn == ".open":
        target, a = e.recv, a
    else:
        target, a = (a[0] if a else None), a[1:]
    kw = dict(e.kw)
    mode = a[0] if a else kw.get("mode", C("r"))
    while target is not None and target[0] == "call" and target[1] in ("pathlib.Path", "os.fspath", "str") and len(target[2]) == 1:
        target = target[2][0]
    ck.ob("output", target == F, cons, e.where, f"the file that is written is {pretty(target)}")
    ck.ob("output", is_const(mode) and mode[2] in ("w", "wt", "tw", "w+"), cons, e.where, f"the file is opened with mode {pretty(mode)}")
    enc = a[2] if len(a) > 2 else kw.get("encoding")
    err = a[3] if len(a) > 3 else kw.get("errors")
    ck.ob("encoding", enc is not None and is_const(enc) and str(enc[2]).lower().replace("_", "-") in ("utf-8", "utf8", "utf-8-sig"), cons, e.where,
          "the file has the encoding of the locale, which has no place for some names")
    ck.ob("encoding", err is not None and is_const(err) and err[2] in ("surrogateescape", "surrogatepass", "backslashreplace", "namereplace"), cons, e.where,
          "a name that is not valid text (of a script or an installed file) cannot be written")


def exit_status(v):
    """The status of an exit by SystemExit(status) or sys.exit(status)."""
    a = v[3] if len(v) > 3 else v[2][1] if isinstance(v[2], tuple) and len(v[2]) == 2 else ()
    return a[0][2] if isinstance(a, tuple) and len(a) == 1 and is_const(a[0]) else None


def main_rule(ck):
    fi = ck.repo.func("__main__:main")
    ck.need(fi, "main not found")
    cons = "main"
    steps = ("parse_arguments", "make_graph", "format_graph")
    for p in ck.run(ck.engine(opaque=set(steps)), fi):
        w = p.where()
        es = [e for e in p.evs("call") if e.fn in steps]
        ok = p.kind == "ret" and [e.fn for e in es] == list(steps)
        if ok:
            a, m, f = es
            ok = a.arg("argv", 0) == ("sym", "argv") and m.arg("args", 0) == a.ret and f.arg("args", 0) == a.ret and f.arg("mg", 1) == m.ret and not any(e.loops for e in es)
        ck.ob("main", ok, cons, w, f"the program runs {[e.fn for e in es]} ({p.cond_text()})")
        touched = [e for e in p.evs(("setattr", "mut", "graph", "setslice", "dset")) if ok]
        ck.ob("main", not touched, cons, w, "the arguments or the graph are changed in between")
