"""Path-sensitive interprocedural abstract interpreter over the package's syntax trees.

Nothing is executed: every value is a term of `sa.terms`, every branch condition is decided from
abstract facts (class sets, constant sets, intervals, recorded conditions) or split into both
outcomes.  A loop is analysed through one arbitrary iteration, with everything the body changes
forgotten first.  Functions of the package are looked through (helpers, properties, context
managers, generators, closures), except those a policy names as opaque.  No solver is involved.

The result for an entry point is a finite list of paths; each carries its completion (return /
raise), the ordered effects ("events") that happen on it, and the facts under which it is taken.
"""
import ast
import builtins
import collections
import importlib
import os

from .repo import AnalysisBroken, FuncInfo, has_yield
from .terms import (C, FALSE, NONE, TRUE, cat, cat_parts, constlike, is_const, is_int_const,
                    is_str_const, lin_add, lin_scale, mk_lin, mentions, pretty, to_lin, walk)

MAX_PATHS = 30000

PURE_EXT = {
    "len", "os.fspath", "os.path.join", "os.path.normpath", "os.path.dirname", "os.path.basename",
    "os.path.abspath", "os.path.splitext", "os.path.split", "abs", "min", "max", "repr", "type", "id", "hash", "ord", "chr",
    "importlib.machinery.all_suffixes", "html.escape", "textwrap.dedent", "operator.attrgetter", "operator.itemgetter",
    "pathlib.Path", "pathlib.PurePath", "int", "float", "bool", "ast.iter_child_nodes", "ast.iter_fields",
    "dis.get_instructions", "dataclasses.field", "importlib.util.decode_source", "range", "json.dumps",
    "urllib.parse.quote", "dis.Bytecode", "callable", "object", "issubclass", "sum", "enum.auto", "bytes", "format",
    "vars", "frozenset", "re.escape", "re.sub", "itertools.chain", "itertools.chain.from_iterable", "map", "filter", "next", "iter",
    "ast.walk", "collections.ChainMap", "cgi.escape", "xml.sax.saxutils.escape", "xml.sax.saxutils.quoteattr",
}
PURE_METHODS = {
    "startswith", "endswith", "lstrip", "rstrip", "strip", "split", "rsplit", "rpartition", "partition",
    "splitlines", "find", "rfind", "index", "rindex", "count", "replace", "isidentifier", "lower", "upper",
    "encode", "decode", "with_suffix", "with_name", "resolve", "relative_to", "joinpath", "title", "removesuffix",
    "removeprefix", "casefold", "translate", "expanduser", "as_posix", "absolute", "isdigit", "zfill", "ljust",
    "rjust", "center", "format", "union", "difference", "intersection", "issubset", "issuperset", "isdisjoint",
    "is_relative_to", "bit_length",
}
# exceptions an external operation may raise (its documented contract)
ALLEXC = ("ModuleNotFoundError", "ImportError", "ValueError", "AttributeError", "SyntaxError", "Exception")
RAISES = {
    "importlib.util.find_spec": ("ValueError", "AttributeError", "ModuleNotFoundError", "ImportError", "Exception"),
    "importlib.import_module": ("ModuleNotFoundError", "ImportError", "Exception"),
    "compile": ("SyntaxError", "ValueError"),
    "importlib.util.decode_source": ("SyntaxError", "UnicodeDecodeError", "LookupError"),
    ".get_source": ("SyntaxError", "UnicodeDecodeError", "ImportError"),
    ".get_code": ("SyntaxError", "ValueError", "ImportError", "EOFError"),
    "os.listdir": ("FileNotFoundError", "NotADirectoryError", "PermissionError", "OSError"),
    "os.scandir": ("FileNotFoundError", "NotADirectoryError", "PermissionError", "OSError"),
    "open": ("FileNotFoundError", "NotADirectoryError", "PermissionError", "IsADirectoryError", "OSError"),
    "io.open": ("OSError",),
    ".read": ("OSError", "UnicodeDecodeError"),
    ".iterdir": ("NotADirectoryError", "FileNotFoundError", "OSError"),
    ".glob": ("OSError",),
    ".read_bytes": ("OSError",),
    ".read_text": ("OSError", "UnicodeDecodeError"),
    ".parse": (),
}
SIDE_FREE_KW = ()
BASIC = {"str", "int", "bool", "bytes", "float", "tuple", "list", "dict", "set", "frozenset", "None", "NoneType"}
NONTRUTHY = {"str", "int", "bool", "bytes", "float", "tuple", "list", "dict", "set", "frozenset", "None",
             "Sequence", "Iterable", "Mapping", "collections.abc.Sequence", "collections.abc.Iterable",
             "collections.abc.Iterator", "object", "collections.deque"}

GRAPH_SIGS = {
    "add_edge": ["source", "destination", "edge_attributes", "merge_attributes"],
    "add_node": ["node"],
    "add_root": ["node"],
    "find_node": ["node"],
    "outgoing": ["source"],
    "incoming": ["destination"],
    "iter_graph": ["node"],
    "edge_data": ["source", "target"],
}
GRAPH_QUERY = {"find_node", "outgoing", "incoming", "iter_graph", "nodes", "roots", "edges", "edge_data", "__contains__"}


def item_groups(items):
    """Runs of items that were added in iterations of the same loop."""
    out = []
    for i in items:
        if out and i.mode == "item" and i.loops and out[-1][-1].mode == "item" and out[-1][-1].loops == i.loops:
            out[-1].append(i)
        else:
            out.append([i])
    return out


class Abr:
    """Abrupt completion travelling through expression evaluation."""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


def quantified(st, n0):
    """The ends of loops since event n0 are those of an `any` or `all`: that they stop early means nothing,
    and when they do not, every element is like the one that was looked at."""
    out = st.events[:n0]
    for e in st.events[n0:]:
        if e.kind == "loopend" and e.fn == "qhit":
            e = Ev("quantified", "some", e.recv, e.args, e.kw, e.ret, e.pos, e.loops, e.idx, e.nobj)
        if e.kind == "loopend" and e.fn == "exhausted":
            e = Ev(e.kind, e.fn, e.recv, e.args, tuple(e.kw) + (("quantifier", C(True)),), e.ret, e.pos, e.loops, e.idx, e.nobj)
        out.append(e)
    st.events = out


class Ev:
    __slots__ = ("kind", "fn", "recv", "args", "kw", "ret", "pos", "loops", "idx", "nobj")

    def __init__(self, kind, fn, recv, args, kw, ret, pos, loops, idx, nobj=0):
        self.kind, self.fn, self.recv, self.args, self.kw = kind, fn, recv, args, kw
        self.ret, self.pos, self.loops, self.idx, self.nobj = ret, pos, loops, idx, nobj

    def arg(self, name, pos=None):
        if isinstance(self.args, dict):
            return self.args.get(name)
        for k, v in self.kw:
            if k == name:
                return v
        if pos is not None and pos < len(self.args):
            return self.args[pos]
        return None

    @property
    def where(self):
        return f"{self.pos[0]}:{self.pos[1]}"

    def __repr__(self):
        if isinstance(self.args, dict):
            a = ", ".join(f"{k}={pretty(v)}" for k, v in self.args.items())
        else:
            a = ", ".join([pretty(v) for v in self.args] + [f"{k}={pretty(v)}" for k, v in self.kw])
        r = f"{pretty(self.recv)}." if self.recv is not None else ""
        lp = f"  @loop{[pretty(x) for x in self.loops]}" if self.loops else ""
        return f"{self.kind}:{r}{self.fn}({a}) [{self.pos[0]}:{self.pos[1]}]{lp}"


class Item:
    """One contribution to a container: mode 'item' (the value) or 'seg' (all elements of the value)."""
    __slots__ = ("mode", "val", "key", "loops", "conds", "pos")

    def __init__(self, mode, val, key=None, loops=(), conds=(), pos=None):
        self.mode, self.val, self.key, self.loops, self.conds, self.pos = mode, val, key, loops, conds, pos

    def sig(self):
        return (self.mode, self.val, self.key, self.loops, self.conds)

    def __eq__(self, o):
        return isinstance(o, Item) and self.sig() == o.sig()

    def __hash__(self):
        return hash(self.sig())

    def __repr__(self):
        return f"{self.mode}:{pretty(self.key) + '=>' if self.key else ''}{pretty(self.val)}{'@' + str([pretty(l) for l in self.loops]) if self.loops else ''}{'?' if self.conds else ''}"


class St:
    __slots__ = ("env", "heap", "cont", "ckind", "cver", "facts", "types", "dom", "bounds", "events", "occ",
                 "loops", "epoch", "exc", "minus")

    def __init__(self):
        self.env, self.heap, self.cont, self.ckind, self.cver = {}, {}, {}, {}, {}
        self.facts, self.types, self.dom, self.bounds = {}, {}, {}, {}
        self.events, self.occ, self.loops, self.epoch, self.exc = [], {}, (), 0, None
        self.minus = {}

    def fork(self):
        n = St.__new__(St)
        for a in ("env", "heap", "cont", "ckind", "cver", "facts", "types", "dom", "bounds", "occ", "minus"):
            setattr(n, a, dict(getattr(self, a)))
        n.events = list(self.events)
        n.loops, n.epoch, n.exc = self.loops, self.epoch, self.exc
        return n


class Frame:
    __slots__ = ("fid", "fi", "module", "cls", "parent", "on_yield", "globals_", "nonlocals", "name")

    def __init__(self, fid, fi, module, cls, parent=None, on_yield=None, name=""):
        self.fid, self.fi, self.module, self.cls = fid, fi, module, cls
        self.parent, self.on_yield, self.name = parent, on_yield, name
        self.globals_, self.nonlocals = set(), set()


SIZED = frozenset(["tuple", "list", "dict", "set", "frozenset", "str", "bytes"])


INERT_METHODS = {"split", "rsplit", "partition", "rpartition", "startswith", "endswith", "strip", "lstrip", "rstrip", "join", "find", "rfind", "count", "replace", "lower", "upper",
                 "removeprefix", "removesuffix", "isidentifier"}
INERT_NAMES = {"len", "str", "tuple", "bool", "int", "ValueError", "TypeError", "AssertionError", "KeyError", "isinstance", "type", "repr"}


NONE_ATTRS = OBJECT_ATTRS = frozenset(dir(None))
NONE_REFUSED = {"list", "tuple", "set", "frozenset", "sorted", "reversed", "len", "iter", "enumerate", "sum", "any", "all", "min", "max", "pathlib.Path", "open", "os.listdir", "os.scandir",
                "os.fspath", "os.fsdecode", "os.fsencode", "os.path.join", "os.path.dirname", "os.path.basename", "os.path.isdir", "os.path.splitext", "int", "float"}


class Policy:
    def __init__(self, opaque=(), raises=None, raise_all=False, assert_raises=False, inline_props=(),
                 inline_ext=(), types=None, opaque_pred=None, dyn_raises=(), lookup_raises=True, raise_only=(), unroll=0, watch=None, skip_prev=False, none_deref=True):
        self.none_deref = none_deref   # attributes of None raise AttributeError
        self.opaque = set(opaque)
        self.raises = dict(RAISES)
        self.raises.update(raises or {})
        self.raise_all, self.assert_raises = raise_all, assert_raises
        self.inline_props = set(inline_props)
        self.types = types or {}
        self.opaque_pred = opaque_pred
        self.dyn_raises = dyn_raises
        self.raise_only = set(raise_only)
        self.unroll = unroll
        self.watch = watch or {}
        self.skip_prev = skip_prev     # members collected in other turns of a loop are not looked at again
        self.lookup_raises = lookup_raises


class Path:
    __slots__ = ("compl", "st", "entry")

    def __init__(self, compl, st, entry):
        self.compl, self.st, self.entry = compl, st, entry

    @property
    def kind(self):
        return "ret" if self.compl is None else self.compl[0]

    @property
    def value(self):
        return NONE if self.compl is None else self.compl[1]

    @property
    def events(self):
        return self.st.events


class Engine:
    def __init__(self, repo, policy=None):
        self.repo = repo
        self.policy = policy or Policy()
        self.fid = 0
        self.nobj = 0
        self.handlers = []       # enclosing try statements: lists of class names (None = catches all)
        self.stack = []          # inlined functions
        self.inlined = set()
        self.npaths = 0
        self.steps = 0
        self._lamb = {}
        self._closures = {}

    # ------------------------------------------------------------------ classes
    def real_class(self, name):
        n = name
        if n in ("None", "NoneType"):
            return type(None)
        if hasattr(builtins, n) and isinstance(getattr(builtins, n), type):
            return getattr(builtins, n)
        mod, _, at = n.rpartition(".")
        if mod.split(".")[0] in ("ast", "types", "importlib", "pathlib", "collections", "zipimport", "os", "enum", "zipfile", "email", "argparse", "typing"):
            try:
                obj = getattr(importlib.import_module(mod), at)
            except (ImportError, AttributeError):
                return None
            return obj if isinstance(obj, type) else None
        return None

    def issub(self, c, target):
        if target in ("object",):
            return True
        if target == "NoneType":
            target = "None"
        if c == target:
            return True
        if c == "None":
            return False
        opened = c.endswith("+")
        base = c[:-1] if opened else c
        if target == "None":
            return False
        R = self.repo.classes
        if base in R:
            if target in R:
                return base in self.repo.subclasses(target)
            ext = [e for k in self.repo.mro(R[base]) for e in k.ext_bases]
            for e in ext:
                if e == target:
                    return True
                a, b = self.real_class(e), self.real_class(target)
                if a and b and issubclass(a, b):
                    return True
            return False
        if target in R:
            if opened and base in ("object",):
                return None
            return False
        if base == target:
            return True
        a, b = self.real_class(base), self.real_class(target)
        if a is not None and b is not None:
            if issubclass(a, b):
                return True
            if not opened:
                return False
            if target in BASIC:
                return None if issubclass(b, a) else False
            return None
        if opened:
            return False if target in BASIC and base not in ("object",) and "abc" not in base else None
        return None if (a is None and b is None) else False

    def exc_sub(self, c, target):
        if c == target or target in ("BaseException",):
            return True
        if target == "Exception" and c not in ("KeyboardInterrupt", "SystemExit", "GeneratorExit"):
            return True
        if target in ("EnvironmentError", "IOError"):
            target = "OSError"
        c = c.split(".")[-1]
        target = target.split(".")[-1]
        a, b = getattr(builtins, c, None), getattr(builtins, target, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        if c == "ZipImportError":
            return target in ("ImportError",)
        if c == "SubprocessError" or c == "BadZipFile":
            return False
        return c == target

    # ------------------------------------------------------------------ annotations
    def ann_types(self, ann, module, depth=0):
        """Class set of an annotation expression, None when unknown."""
        if ann is None or depth > 6:
            return None
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return frozenset(["None"])
            if isinstance(ann.value, str):
                try:
                    return self.ann_types(ast.parse(ann.value, mode="eval").body, module, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            a, b = self.ann_types(ann.left, module, depth + 1), self.ann_types(ann.right, module, depth + 1)
            return None if a is None or b is None else a | b
        if isinstance(ann, ast.Subscript):
            head = ast.unparse(ann.value).split(".")[-1]
            if head == "Optional":
                a = self.ann_types(ann.slice, module, depth + 1)
                return None if a is None else a | {"None"}
            if head == "Union":
                out = frozenset()
                elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                for e in elts:
                    a = self.ann_types(e, module, depth + 1)
                    if a is None:
                        return None
                    out |= a
                return out
            if head in ("ClassVar", "Final", "Annotated"):
                return None
            return self.ann_types(ann.value, module, depth + 1)
        if isinstance(ann, (ast.Name, ast.Attribute)):
            txt = ast.unparse(ann)
            r = self.repo.resolve_dotted(module, txt)
            if r is None:
                return None
            if r[0] == "class":
                return self.repo.subclasses(r[1].name)
            if r[0] == "const":
                return self.ann_types(r[1], r[2], depth + 1)
            if r[0] == "ext":
                d = r[1]
                if d in ("typing.Any", "object", "typing.Callable", "collections.abc.Callable", "type", "callable"):
                    return None
                if d in ("str", "int", "bytes", "list", "dict", "set", "tuple", "frozenset", "float"):
                    return frozenset([d])
                if d == "bool":
                    return frozenset(["bool"])
                if d.split(".")[0] in ("typing",) and not d.split(".")[-1][:1].isupper():
                    return None
                rc = self.real_class(d)
                if rc is None:
                    if d.startswith("objectgraph"):
                        return None
                    last = d.split(".")[-1]
                    if last in ("Iterable", "Iterator", "Sequence", "Deque", "TextIO", "Mapping"):
                        return frozenset([d + "+"])
                    if d.split(".")[0] in ("typing", "os", "types", "importlib", "pathlib", "collections"):
                        return frozenset([d + "+"])
                    return None
                return frozenset([d + "+"])
        return None

    def typeof(self, t, st):
        k = t[0]
        if k == "c":
            return frozenset(["None" if t[2] is None else t[1]])
        if t in st.types:
            return st.types[t]
        if k == "obj":
            return frozenset([t[2]])
        if k == "rec":
            return frozenset([t[1]])
        if k in ("cat", "rep", "join", "str"):
            return frozenset(["str"])
        if k == "tup":
            return frozenset(["tuple"])
        if k == "lin":
            return frozenset(["int"])
        if k in ("func", "bm", "partial", "clo", "cls", "mod", "ext", "enum", "gen", "super"):
            return frozenset(["function+"]) if k != "enum" else frozenset([t[1]])
        if k == "exc":
            return frozenset([t[1]])
        if k == "item" and t[1][0] == "glob":
            return self.const_values(t[1])
        if k == "call":
            if t[1] == "len":
                return frozenset(["int"])
            if t[1] in ("os.path.join", "os.path.dirname", "os.path.normpath", "repr", "html.escape", "os.path.basename"):
                return frozenset(["str"])
            if t[1] in ("pathlib.Path", "pathlib.PurePath"):
                return frozenset(["pathlib.Path+"])
            if t[1] in ("compile", "ast.parse"):
                return frozenset(["compiled+"])
        if k == "attr":
            S = self.typeof(t[1], st)
            if S == frozenset(["pathlib.Path+"]) and t[2] == "parent":
                return S
            if S:
                out = None
                for c in S:
                    if c == "None":
                        continue
                    ci = self.repo.classes.get(c)
                    if ci is None:
                        return None
                    fa = self.repo.field_ann(ci, t[2])
                    if fa is None:
                        return None
                    a = self.ann_types(*fa)
                    if a is None:
                        return None
                    out = a if out is None else out | a
                return out
        return None

    # ------------------------------------------------------------------ running
    def new_frame(self, fi, module, cls, parent=None, on_yield=None, name=""):
        self.fid += 1
        return Frame(self.fid, fi, module, cls, parent, on_yield, name)

    def new_obj(self, st, kind, items=()):
        self.nobj += 1
        o = ("obj", self.nobj, kind)
        st.cont[o] = tuple(items)
        st.ckind[o] = kind
        st.cver[o] = 0
        return o

    def run(self, fi, args=None, init=None, on_yield=None):
        """All paths of function `fi` with parameters `args` (terms by name; default symbols)."""
        if fi is None:
            raise AnalysisBroken("entry point not found")
        st = St()
        fr = self.new_frame(fi, fi.module, fi.cls, name=fi.name)
        a = fi.node.args
        params = a.posonlyargs + a.args + a.kwonlyargs
        args = dict(args or {})
        for i, p in enumerate(params):
            t = args.get(p.arg)
            if t is None:
                t = ("sym", p.arg)
                if i == 0 and fi.cls is not None and not fi.is_static:
                    t = ("cls", fi.cls.name) if fi.is_classmethod else ("sym", "self")
                    if not fi.is_classmethod:
                        st.types[t] = frozenset([fi.cls.name])
                else:
                    S = self.ann_types(p.annotation, fi.module)
                    if S is not None:
                        st.types[t] = S
            st.env[(fr.fid, p.arg)] = t
        for p in (a.vararg, a.kwarg):
            if p is not None:
                st.env[(fr.fid, p.arg)] = args.get(p.arg) or ("sym", p.arg)
        for k, v in self.policy.types.items():
            st.types[k] = frozenset(v)
        if init:
            init(self, st, fr)
        out = on_yield or (lambda v, s: self._top_yield(v, s, fi))
        if fi.is_gen:
            fr.on_yield = out
        self.stack.append(fi.qual)
        self.inlined.add(fi.qual)
        try:
            outs = self.block(fi.node.body, st, fr)
        finally:
            self.stack.pop()
        if len(outs) > MAX_PATHS:
            raise AnalysisBroken(f"{fi.qual}: {len(outs)} paths")
        self.npaths += len(outs)
        res = []
        for c, s in outs:
            if c is not None and c[0] == "abandon":
                c = c[1]
            res.append(Path(c, s, fi))
        return res

    def _top_yield(self, v, st, fi):
        self.event(st, "yield", "yield", None, (v,), (), NONE, (fi.module.path, fi.node.lineno))
        return [(None, st)]

    def event(self, st, kind, fn, recv, args, kw, ret, pos):
        e = Ev(kind, fn, recv, args, tuple(kw), ret, pos, st.loops, len(st.events), self.nobj)
        st.events.append(e)
        return e

    def pos(self, fr, node):
        p = fr.module.path
        return (os.path.relpath(p, self.repo.root), getattr(node, "lineno", 0))

    # ------------------------------------------------------------------ statements
    def block(self, body, st, fr):
        cur = [st]
        done = []
        for s in body:
            nxt = []
            for x in cur:
                for c, y in self.stmt(s, x, fr):
                    if c is None:
                        nxt.append(y)
                    else:
                        done.append((c, y))
            cur = nxt
            if len(cur) + len(done) > MAX_PATHS:
                raise AnalysisBroken(f"too many paths in {fr.name}")
            if not cur:
                break
        return done + [(None, x) for x in cur]

    def lift(self, outs, f):
        """outs: [(value|Abr, st)] -> statement completions through f(value, st)."""
        res = []
        for v, s in outs:
            if isinstance(v, Abr):
                res.append((v.c, s))
            else:
                res.extend(f(v, s))
        return res

    def bind(self, outs, f):
        res = []
        for v, s in outs:
            if isinstance(v, Abr):
                res.append((v, s))
            else:
                res.extend(f(v, s))
        return res

    def stmt(self, n, st, fr):
        self.steps += 1
        if self.steps > 6_000_000:
            raise AnalysisBroken("analysis budget exhausted")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported statement {type(n).__name__} in {fr.name} line {n.lineno}")
        return m(n, st, fr)

    def s_Pass(self, n, st, fr):
        return [(None, st)]

    s_Import_done = None

    def s_Import(self, n, st, fr):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            d = a.name if a.asname else a.name.split(".")[0]
            st.env[(fr.fid, nm)] = ("mod", d) if d in self.repo.modules else ("ext", d)
        return [(None, st)]

    def s_ImportFrom(self, n, st, fr):
        base = n.module or ""
        if n.level:
            parts = fr.module.name.split(".")
            if not fr.module.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[: len(parts) - (n.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        for a in n.names:
            if base in self.repo.modules:
                r = self.repo.lookup(self.repo.modules[base], a.name)
                if r is None and f"{base}.{a.name}" in self.repo.modules:
                    r = ("mod", f"{base}.{a.name}")
                v = self.binding(r) if r else ("ext", f"{base}.{a.name}")
            else:
                v = ("ext", f"{base}.{a.name}")
            st.env[(fr.fid, a.asname or a.name)] = v
        return [(None, st)]

    def s_Global(self, n, st, fr):
        fr.globals_ |= set(n.names)
        return [(None, st)]

    def s_Nonlocal(self, n, st, fr):
        fr.nonlocals |= set(n.names)
        return [(None, st)]

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(None, st)]
        return self.lift(self.eval(n.value, st, fr), lambda v, s: [(None, s)])

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(("ret", NONE), st)]
        return self.lift(self.eval(n.value, st, fr), lambda v, s: [(("ret", v), s)])

    def s_Assign(self, n, st, fr):
        def f(v, s):
            outs = [(None, s)]
            for t in n.targets:
                nxt = []
                for c, x in outs:
                    nxt.extend([(c, x)] if c else self.assign(t, v, x, fr))
                outs = nxt
            return outs
        return self.lift(self.eval(n.value, st, fr), f)

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(None, st)]

        def f(v, s):
            S = self.ann_types(n.annotation, fr.module)
            if S is not None and not is_const(v) and v[0] not in ("obj", "rec", "tup", "ext", "item") and self.typeof(v, s) is None:
                s.types[v] = self.less_known(v, S, s)
            return self.assign(n.target, v, s, fr)
        return self.lift(self.eval(n.value, st, fr), f)

    def s_AugAssign(self, n, st, fr):
        load = ast.copy_location(ast.fix_missing_locations(_as_load(n.target)), n.target)

        def f(cur, s):
            def g(v, s2):
                op = type(n.op).__name__
                if op in ("Add", "BitOr", "Sub", "BitAnd") and self.is_mutable(cur, v, s2, op):
                    if op == "BitAnd":
                        r = self.call_method(cur, "intersection_update", [v], [], s2, fr, n)
                    else:
                        meth = {"Add": "extend", "BitOr": "update", "Sub": "difference_update"}[op]
                        r = self.call_method(cur, meth, [v], [], s2, fr, n)
                    return self.lift(r, lambda _v, s3: [(None, s3)])
                return self.lift(self.binop(n.op, cur, v, s2, fr, n), lambda r, s3: self.assign(n.target, r, s3, fr))
            return self.lift(self.eval(n.value, s, fr), g)
        return self.lift(self.eval(load, st, fr), f)

    def is_mutable(self, cur, v, st, op):
        if cur in st.cont:
            return st.ckind[cur] not in ("tuple",)
        if is_const(cur) or cur[0] in ("cat", "lin", "tup", "rep"):
            return False
        S = self.typeof(cur, st)
        if S is not None:
            if S & {"str", "int", "bool", "tuple", "frozenset", "float"}:
                return False
            return True
        if op == "BitOr":
            return True
        S2 = self.typeof(v, st)
        if S2 is not None and S2 & {"str", "int", "tuple", "bool"}:
            return False
        return op == "Add" and v in st.cont

    def s_Delete(self, n, st, fr):
        cur = [(None, st)]
        for t in n.targets:
            nxt = []
            for c, s in cur:
                if c:
                    nxt.append((c, s))
                elif isinstance(t, ast.Name):
                    s.env.pop((fr.fid, t.id), None)
                    nxt.append((None, s))
                elif isinstance(t, ast.Subscript):
                    if isinstance(t.slice, ast.Slice):
                        nxt.extend(self.lift(self.eval(t.value, s, fr), lambda b, s2: self.lift(
                            self.call_method(b, "clear" if not (t.slice.lower or t.slice.upper or t.slice.step) else "__delslice__", [], [], s2, fr, n),
                            lambda _v, s3: [(None, s3)])))
                    else:
                        nxt.extend(self.lift(self.evals([t.value, t.slice], s, fr), lambda bs, s2: self.lift(
                            self.dict_del(bs[0], bs[1], s2, fr, n), lambda _v, s3: [(None, s3)])))
                elif isinstance(t, ast.Attribute):
                    def f(b, s2):
                        s2.heap.pop((b, t.attr), None)
                        self.event(s2, "delattr", t.attr, b, (), (), NONE, self.pos(fr, n))
                        return [(None, s2)]
                    nxt.extend(self.lift(self.eval(t.value, s, fr), f))
                else:
                    raise AnalysisBroken("unsupported del target")
            cur = nxt
        return cur

    def s_If(self, n, st, fr):
        res = []
        for b, s in self.cond(n.test, st, fr):
            if isinstance(b, Abr):
                res.append((b.c, s))
            else:
                res.extend(self.block(n.body if b else n.orelse, s, fr))
        return res

    def s_Assert(self, n, st, fr):
        res = []
        for b, s in self.cond(n.test, st, fr):
            if isinstance(b, Abr):
                res.append((b.c, s))
            elif b:
                res.append((None, s))
            elif self.policy.assert_raises:
                res.append((("raise", ("exc", "AssertionError", self.pos(fr, n))), s))
        return res

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            return [(("raise", st.exc or ("exc", "Exception", "reraise")), st)]

        def f(v, s):
            return [(("raise", self.as_exc(v, s, self.pos(fr, n))), s)]
        return self.lift(self.eval(n.exc, st, fr), f)

    def as_exc(self, v, st, pos):
        if v[0] == "exc":
            return v
        if v[0] == "call" and (isinstance(getattr(builtins, v[1], None), type)):
            return ("exc", v[1], pos)
        if v[0] == "ext":
            return ("exc", v[1], pos)
        if v[0] == "obj" and v[2] in self.repo.classes:
            return ("exc", v[2], pos)
        return ("exc", "Exception", pos)

    def s_FunctionDef(self, n, st, fr):
        v = self.closure(n, fr)
        st.env[(fr.fid, n.name)] = v
        return [(None, st)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fr):
        raise AnalysisBroken(f"local class {n.name} in {fr.name} not supported")

    def s_Break(self, n, st, fr):
        return [(("break",), st)]

    def s_Continue(self, n, st, fr):
        return [(("cont",), st)]

    def s_With(self, n, st, fr):
        return self.with_items(n, list(n.items), st, fr)

    def with_items(self, n, items, st, fr):
        if not items:
            return self.block(n.body, st, fr)
        it, rest = items[0], items[1:]

        def body(v, s):
            if it.optional_vars is not None:
                outs = self.assign(it.optional_vars, v, s, fr)
            else:
                outs = [(None, s)]
            res = []
            for c, x in outs:
                res.extend([(c, x)] if c else self.with_items(n, rest, x, fr))
            return res
        return self.lift(self.eval(it.context_expr, st, fr), lambda v, s: self.enter(v, s, fr, n, body))

    def enter(self, v, st, fr, n, body):
        if v[0] == "gen":     # generator-based context manager
            return self.run_cm(v, st, body)
        if v[0] == "call" and v[1] in ("contextlib.suppress",):
            names = [x[1] if x[0] in ("ext", "cls") else "Exception" for x in v[2]]
            self.handlers.append(names)
            try:
                outs = body(v, st)
            finally:
                self.handlers.pop()
            return [(None, s) if c and c[0] == "raise" and any(self.exc_sub(c[1][1], x) for x in names) else (c, s) for c, s in outs]
        if v[0] == "call" and v[1] == "contextlib.nullcontext":
            return body(v[2][0] if v[2] else NONE, st)
        if v[0] == "call" and v[1] == "contextlib.closing":
            return body(v[2][0], st)
        S = self.typeof(v, st)
        if S and len(S) == 1 and next(iter(S)) in self.repo.classes:
            ci = self.repo.classes[next(iter(S))]
            e, x = self.repo.find_method(ci, "__enter__"), self.repo.find_method(ci, "__exit__")
            if e and x:
                def entered(val, s):
                    self.handlers.append(["BaseException"])
                    try:
                        outs = body(val, s)
                    finally:
                        self.handlers.pop()
                    res = []
                    for c, s2 in outs:
                        exc = c[1] if c and c[0] == "raise" else None
                        a = [("ext", exc[1]), exc, ("sym", "traceback")] if exc else [NONE, NONE, NONE]
                        for r, s3 in self.call_func(x, v, a, [], s2, fr, n):
                            if isinstance(r, Abr):
                                res.append((r.c, s3))
                            elif exc and is_const(r) and r[2]:
                                res.append((None, s3))
                            else:
                                res.append((c, s3))
                    return res
                return self.lift(self.call_func(e, v, [], [], st, fr, n), entered)
        self.event(st, "enter", "enter", v, (), (), v, self.pos(fr, n))
        res = []
        for c, s in body(v, st):
            self.event(s, "exit", "exit", v, (), (), NONE, self.pos(fr, n))
            res.append((c, s))
        return res

    def run_cm(self, gen, st, body):
        """contextlib.contextmanager protocol: body runs at the (single) yield."""
        def on_yield(v, s):
            outs = []
            for c, x in body(v, s):
                if c is None:
                    outs.append((None, x))
                elif c[0] == "raise":
                    outs.append((("throw", c[1]), x))
                else:
                    x.env[("cm", id(on_yield))] = c     # return/break: manager resumes normally
                    outs.append((None, x))
            return outs
        outs = self.run_gen(gen, st, on_yield)
        res = []
        for c, s in outs:
            stash = s.env.pop(("cm", id(on_yield)), None)
            if c is None or c[0] == "ret":
                res.append((stash, s))
            elif c[0] == "abandon":
                res.append((c[1], s))
            else:
                res.append((c, s))
        return res

    def run_gen(self, gen, st, on_yield):
        """Run a repo generator value with `on_yield(val, st) -> [(completion, st)]` as its consumer."""
        _, qual, binding, fidkey = gen
        fi, clo = self._gens[fidkey]
        fr = self.new_frame(fi, fi.module, fi.cls, parent=clo, on_yield=on_yield, name=fi.name)
        for k, v in binding:
            st.env[(fr.fid, k)] = v
        key = fi.qual
        if key in self.stack:
            # recursive generator: report, do not unroll
            self.event(st, "recurse", fi.qual, None, dict(binding), (), NONE, (os.path.relpath(fi.module.path, self.repo.root), fi.node.lineno))
            return [(None, st)]
        self.stack.append(key)
        self.inlined.add(key)
        try:
            return self.block(fi.node.body, st, fr)
        finally:
            self.stack.pop()

    _gens = {}

    def s_Try(self, n, st, fr):
        hs = []
        for h in n.handlers:
            hs.append(self.handler_names(h.type, st, fr))
        flat = [x for h in hs for x in h]
        if n.finalbody and self.policy.raise_all:
            flat_f = flat + ["BaseException"]
        else:
            flat_f = flat
        self.handlers.append(flat_f)
        try:
            outs = self.block(n.body, st, fr)
        finally:
            self.handlers.pop()
        mid = []
        if n.finalbody:
            self.handlers.append(["BaseException"] if self.policy.raise_all else [])
        try:
            for c, s in outs:
                if c is None:
                    mid.extend(self.block(n.orelse, s, fr))
                elif c[0] == "raise":
                    exc = c[1]
                    for h, names in zip(n.handlers, hs):
                        if any(self.exc_sub(exc[1], x) for x in names):
                            if h.name:
                                s.env[(fr.fid, h.name)] = exc
                            old = s.exc
                            s.exc = exc
                            self.event(s, "handler", ",".join(names), None, (exc,), (), NONE, self.pos(fr, h))
                            for c2, s2 in self.block(h.body, s, fr):
                                s2.exc = old
                                mid.append((c2, s2))
                            break
                    else:
                        mid.append((c, s))
                else:
                    mid.append((c, s))
        finally:
            if n.finalbody:
                self.handlers.pop()
        if not n.finalbody:
            return mid
        res = []
        for c, s in mid:
            for c2, s2 in self.block(n.finalbody, s, fr):
                res.append((c2 if c2 is not None else c, s2))
        return res

    def handler_names(self, t, st, fr):
        if t is None:
            return ["BaseException"]
        if isinstance(t, ast.Tuple):
            return [x for e in t.elts for x in self.handler_names(e, st, fr)]
        v = self.eval(t, st, fr)[0][0]
        if isinstance(v, Abr):
            return ["Exception"]
        if v[0] == "tup":
            return [x[1].split(".")[-1] for x in v[1]]
        return [v[1].split(".")[-1]] if v[0] in ("ext", "cls") else ["Exception"]

    s_TryStar = s_Try

    def s_Match(self, n, st, fr):
        def f(subj, s):
            res, cur = [], [s]
            for case in n.cases:
                nxt = []
                for x in cur:
                    for b, y in self.match(case.pattern, subj, x, fr):
                        if not b:
                            nxt.append(y)
                            continue
                        if case.guard is not None:
                            for g, z in self.cond(case.guard, y, fr):
                                if isinstance(g, Abr):
                                    res.append((g.c, z))
                                elif g:
                                    res.extend(self.block(case.body, z, fr))
                                else:
                                    nxt.append(z)
                        else:
                            res.extend(self.block(case.body, y, fr))
                cur = nxt
            return res + [(None, x) for x in cur]
        return self.lift(self.eval(n.subject, st, fr), f)

    def match(self, p, v, st, fr):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st.env[(fr.fid, p.name)] = v
                return [(True, st)]
            out = []
            for b, s in self.match(p.pattern, v, st, fr):
                if b and p.name:
                    s.env[(fr.fid, p.name)] = v
                out.append((b, s))
            return out
        if isinstance(p, ast.MatchOr):
            out, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for b, x in self.match(q, v, s, fr):
                        (out if b else nxt).append((True, x) if b else x)
                cur = nxt
            return out + [(False, s) for s in cur]
        if isinstance(p, ast.MatchValue):
            return self.bind_cond(self.eval(p.value, st, fr), lambda w, s: self.eq(v, w, s))
        if isinstance(p, ast.MatchSingleton):
            return self.eq(v, C(p.value), st)
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, st, fr)[0][0]
            outs = self.isinst(v, [cls], st)
            if not p.patterns and not p.kwd_attrs:
                return outs
            res = []
            for b, s in outs:
                if not b:
                    res.append((False, s))
                    continue
                cur = [(True, s)]
                for at, q in zip(p.kwd_attrs, p.kwd_patterns):
                    nxt = []
                    for bb, x in cur:
                        if not bb:
                            nxt.append((bb, x))
                        else:
                            for w, y in self.getattr(v, at, x, fr, p):
                                nxt.extend(self.match(q, w, y, fr))
                    cur = nxt
                res.extend(cur)
            return res
        if isinstance(p, ast.MatchSequence) and v[0] == "tup" and len(v[1]) == len(p.patterns) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            cur = [(True, st)]
            for q, w in zip(p.patterns, v[1]):
                nxt = []
                for b, s in cur:
                    nxt.extend(self.match(q, w, s, fr) if b else [(b, s)])
                cur = nxt
            return cur
        raise AnalysisBroken(f"unsupported match pattern in {fr.name}")

    def bind_cond(self, outs, f):
        res = []
        for v, s in outs:
            if isinstance(v, Abr):
                res.append((v, s))
            else:
                res.extend(f(v, s))
        return res

    # ------------------------------------------------------------------ loops
    def s_For(self, n, st, fr):
        def f(it, s):
            def body(elem, x):
                outs = []
                for c, y in self.assign(n.target, elem, x, fr):
                    if c:
                        outs.append((c, y))
                    else:
                        outs.extend(self.block(n.body, y, fr))
                return outs
            res = []
            for c, x in self.iterate(it, s, fr, n, body):
                if c is None:
                    res.extend(self.block(n.orelse, x, fr) if n.orelse else [(None, x)])
                elif c[0] == "break":
                    res.append((None, x))
                else:
                    res.append((c, x))
            return res
        return self.lift(self.eval(n.iter, st, fr), f)

    s_AsyncFor = s_For

    def iterate(self, it, st, fr, node, body, order=None):
        """Run `body(elem, st) -> completions` for the elements of `it`.

        Completions returned: None (exhausted), ('break',) and everything else that leaves the loop."""
        def one(vals, s):
            cur, done = [s], []
            for v in vals:
                nxt = []
                for x in cur:
                    for c, y in body(v, x):
                        if c is None or c[0] == "cont":
                            nxt.append(y)
                        else:
                            done.append((c, y))
                cur = nxt
            return done + [(None, x) for x in cur]

        k = it[0]
        if self.policy.none_deref and self.known_none(it, st):
            return [(("raise", ("exc", "TypeError", ("none", self.pos(fr, node)))), st)]
        if k == "tup":
            if len(it[1]) > 12:
                return self.generic(st, fr, node, it, lambda s: body(("elem", it, self._ek(s, it)), s))
            return one(it[1], st)
        if k == "call" and it[1] == "range" and self.policy.unroll and all(is_int_const(x) for x in it[2]):
            vals = list(range(*[x[2] for x in it[2]]))
            if len(vals) <= self.policy.unroll:
                return one([C(x) for x in vals], st)
        if k == "c" and it[1] == "str":
            return one([C(ch) for ch in it[2]], st) if len(it[2]) <= 8 else self.generic(st, fr, node, it, lambda s: body(("elem", it, self._ek(s, it)), s))
        if k == "gen":
            outs = []

            def on_yield(v, s):
                res = []
                for c, x in body(v, s):
                    if c is None or c[0] == "cont":
                        res.append((None, x))
                    else:
                        res.append((("abandon", c), x))
                return res
            for c, s in self.run_gen(it, st, on_yield):
                if c is None or c[0] == "ret":
                    outs.append((None, s))
                elif c[0] == "abandon":
                    outs.append((c[1], s))
                else:
                    outs.append((c, s))
            return outs
        if k == "enum_of":
            return self.iterate(it[1], st, fr, node, lambda e, s: body(("tup", (self._index(it, s, node, fr), e)), s))
        if k == "zip_of":
            def zb(e, s):
                rest = tuple(("elem", x, 0) if i else e for i, x in enumerate(it[1]))
                return body(("tup", rest), s)
            return self.iterate(it[1][0], st, fr, node, zb)
        if k == "order_of":
            self.event(st, "order", it[1], it[2], (), (), NONE, self.pos(fr, node))
            return self.iterate(it[2], st, fr, node, body, order=it[1])
        if k == "map_of":
            return self.iterate(it[2], st, fr, node, lambda e, s: self.lift(self.call(it[1], [e], [], s, fr, node), body))
        if k == "filter_of":
            def fb(e, s):
                def g(v, s2):
                    out = []
                    for b, s3 in self.truth(v, s2):
                        out.extend(body(e, s3) if b else [(None, s3)])
                    return out
                if it[1] == NONE:
                    return g(e, s)
                return self.lift(self.call(it[1], [e], [], s, fr, node), g)
            return self.iterate(it[2], st, fr, node, fb)
        if k == "chain_of":
            cur, done = [st], []
            for sub in it[1]:
                nxt = []
                for x in cur:
                    for c, y in self.iterate(sub, x, fr, node, body):
                        (nxt.append(y) if c is None else done.append((c, y)))
                cur = nxt
            return done + [(None, x) for x in cur]
        if it in st.cont:
            cur, done = [st], []
            if st.facts.get(("truth", it, st.cver.get(it))) is False:
                return [(None, st)]
            if any(item.mode == "seg" for item in st.cont[it]):
                self.event(st, "order", "unordered" if st.ckind.get(it) in ("set", "frozenset") else "copy", st.cont[it][0].val, (), (), NONE, self.pos(fr, node))
            members = st.cont[it]
            if self.policy.skip_prev:
                members = tuple(i for i in members if not (i.mode == "seg" and i.val[0] == "prev"))
            for group in item_groups(members):
                nxt = []
                for x in cur:
                    for c, y in self.iter_group(it, group, x, fr, node, body):
                        (nxt.append(y) if c is None else done.append((c, y)))
                cur = nxt
            return done + [(None, x) for x in cur]
        if k == "items_of":
            b = it[1]
            if b in st.cont:
                def ib(item):
                    return ("tup", (item.key or NONE, item.val))
                outs, cur = [], [st]
                for item in st.cont[b]:
                    nxt = []
                    for x in cur:
                        if item.mode == "item":
                            rs = self.iter_item(b, Item("item", ib(item), None, item.loops, item.conds, item.pos), x, fr, node, body)
                        elif self.policy.skip_prev and item.val[0] == "prev":
                            rs = [(None, x)]
                        else:
                            rs = self.iterate(("items_of", item.val), x, fr, node, body)
                        for c, y in rs:
                            (nxt.append(y) if c is None else outs.append((c, y)))
                    cur = nxt
                return outs + [(None, x) for x in cur]

            def eb(s):
                key = ("elem", b, self._ek(s, b))
                return body(("tup", (key, ("item", b, key))), s)
            return self.generic(st, fr, node, b, eb)
        if k == "values_of":
            b = it[1]
            if b in st.cont:
                return self.iterate(b, st, fr, node, body)   # items' values are what cont stores
            return self.generic(st, fr, node, b, lambda s: body(("item", b, ("elem", b, self._ek(s, b))), s))
        if k == "keys_of":
            b = it[1]
            if b in st.cont:
                outs, cur = [], [st]
                for item in st.cont[b]:
                    nxt = []
                    for x in cur:
                        if item.mode == "item":
                            rs = self.iter_item(b, Item("item", item.key or NONE, None, item.loops, item.conds, item.pos), x, fr, node, body)
                        elif self.policy.skip_prev and item.val[0] == "prev":
                            rs = [(None, x)]
                        else:
                            rs = self.iterate(item.val, x, fr, node, body)
                        for c, y in rs:
                            (nxt.append(y) if c is None else outs.append((c, y)))
                    cur = nxt
                return outs + [(None, x) for x in cur]
            return self.generic(st, fr, node, b, lambda s: body(("elem", b, self._ek(s, b)), s))
        if k == "glob":
            c = self.const_coll(it)
            if c is not None and len(c) <= 6:
                return one([C(x) for x in c], st)
        if k == "iter_of":
            return self.iterate(it[1], st, fr, node, body)
        if it[0] == "item" and it[1] in st.cont and False:
            pass
        return self.generic(st, fr, node, it, lambda s: body(("elem", it, self._ek(s, it)), s))

    def _ek(self, st, it):
        return sum(1 for l in st.loops if l == it) - 1

    def _index(self, it, st, node, fr):
        t = ("idx", it[1])
        return lin_add(t, it[2]) if len(it) > 2 and it[2] is not None else t

    def iter_item(self, cont, item, st, fr, node, body):
        return self.iter_group(cont, (item,), st, fr, node, body)

    def iter_group(self, cont, group, st, fr, node, body):
        """Iterate over items that were added in iterations of the same loop."""
        item = group[0]
        if item.mode == "seg":
            return self.iterate(item.val, st, fr, node, body)

        def step(s):
            cur, done = [s], []
            for i in group:
                nxt = []
                for x in cur:
                    yes = self.assume(x.fork(), i.conds) if i.conds else x
                    if yes is not None:
                        for c, y in body(i.val, yes):
                            (nxt.append(y) if c is None or c[0] == "cont" else done.append((c, y)))
                    if i.conds:
                        nxt.extend(self.assume_not(x, i.conds))
                cur = nxt
            return done + [(None, x) for x in cur]
        loops = [l for l in item.loops if l not in st.loops]
        if not loops:
            return step(st)
        return self.generic(st, fr, node, loops[-1], step, extra=loops[:-1])

    def assume_not(self, st, conds):
        """States in which not all of the conditions hold."""
        out, cur = [], st
        for c in conds:
            kind, key, val = c
            neg = cur.fork()
            if kind == "fact":
                neg = self.assume(neg, (("fact", key, not val),)) if isinstance(val, bool) else neg
            elif kind == "type":
                have = neg.types.get(key) or self.typeof(key, neg)
                if have is not None:
                    rest = have - val
                    if rest:
                        neg.types[key] = rest
                    else:
                        neg = None
            elif kind == "dom":
                new = _dom_meet(neg.dom.get(key), ("notin" if val[0] == "in" else "in", val[1]))
                if new is None:
                    neg = None
                else:
                    neg.dom[key] = new
            elif kind == "bounds":
                neg = None if neg.bounds.get(key) == val else neg
            if neg is not None:
                out.append(neg)
            cur = self.assume(cur.fork(), (c,))
            if cur is None:
                break
        return out

    def assume(self, st, conds):
        for kind, key, val in conds:
            if kind == "fact":
                if st.facts.get(key, val) != val:
                    return None
                st.facts[key] = val
            elif kind == "type":
                cur = st.types.get(key)
                new = val if cur is None else cur & val
                if not new:
                    return None
                st.types[key] = new
            elif kind == "dom":
                cur = st.dom.get(key)
                new = _dom_meet(cur, val)
                if new is None:
                    return None
                st.dom[key] = new
            elif kind == "bounds":
                st.bounds[key] = val
        return st

    def generic(self, st, fr, node, it, step, extra=(), zero=True):
        """Analyse a loop through one arbitrary iteration (`step`), after havocking what it changes."""
        res = []
        ne = ("nonempty", it)
        if ne not in st.facts and st.facts.get(("truth", it)) is True:
            if self.sized(it, st):
                st.facts[ne] = True
        if zero and st.facts.get(ne) is not True:
            z = st.fork()
            z.facts[ne] = False
            res.append((None, z))
        if st.facts.get(ne) is False:
            return res
        base = st.fork()
        base.facts[ne] = True
        base.loops = st.loops + tuple(extra) + (it,)
        outs = self.fix(base, node, fr, step)
        for c, s in outs:
            s.loops = st.loops
            if c is None or c[0] == "cont":
                self.event(s, "loopend", "exhausted", it, (), (), NONE, self.pos(fr, node))
                res.append((None, s))
            else:
                self.event(s, "loopend", c[0], it, (), (), NONE, self.pos(fr, node))
                res.append((c, s))
        return res

    def fix(self, base, node, fr, step):
        """Run `step` from a state in which everything `step` may change is forgotten."""
        changed = {}      # key -> set of alternative values | 'any'
        lid = self.pos(fr, node)
        outs = []
        for _ in range(6):
            entries = self.havoc(base, changed, lid)
            outs = []
            new = dict(changed)
            for e in entries:
                snapshot = e.fork()
                for c, s in step(e):
                    outs.append((c, s))
                    if c is None or c[0] == "cont":
                        self.diff(base, snapshot, s, new)
            if len(outs) > MAX_PATHS:
                raise AnalysisBroken(f"too many loop paths at {lid}")
            if new == changed:
                return outs
            changed = new
        return outs

    def diff(self, base, before, after, changed):
        for k, v in base.env.items():
            w = after.env.get(k)
            if w is None:
                continue
            if w != before.env.get(k):
                self._alt(changed, ("env", k), v, w)
        for k, v in after.heap.items():
            if k[0][0] in ("strobj", "node") and k not in base.heap and not (len(k[0]) > 0 and k[0] in base.types):
                continue        # an object made by this very iteration
            if before.heap.get(k) != v and (k in base.heap or k[0] in base.cont or k[0][0] != "obj"):
                changed[("heap", k)] = "any" if not (constlike(v) and k in base.heap and constlike(base.heap[k])) else changed.get(("heap", k), frozenset()) | {v, base.heap[k]} if changed.get(("heap", k)) != "any" else "any"
        for o in base.cont:
            if after.cont.get(o) != before.cont.get(o) or after.cver.get(o) != before.cver.get(o):
                b, a = before.cont.get(o, ()), after.cont.get(o, ())
                if a[: len(b)] != b or after.minus.get(o) != before.minus.get(o):
                    changed[("cont", o)] = "any"
                else:
                    changed.setdefault(("cont", o), "grow")
        for k, v in after.facts.items():
            if k[0] == "in" and before.facts.get(k) is not None and before.facts.get(k) != v:
                changed[("mem", k[2])] = "any"
            if k[0] == "in" and k in base.facts and base.facts[k] != v:
                changed[("mem", k[2])] = "any"

    def _alt(self, changed, key, *vals):
        cur = changed.get(key)
        if cur == "any":
            return
        s = set(cur or ()) | set(vals)
        if all(constlike(x) for x in s) and len(s) <= 4:
            changed[key] = frozenset(s)
        else:
            changed[key] = "any"

    def havoc(self, base, changed, lid):
        states = [base.fork()]
        for key, alts in sorted(changed.items(), key=repr):
            kind, k = key
            nxt = []
            for s in states:
                if kind == "env":
                    if alts == "any":
                        t = ("loopvar", k[1], lid)
                        s.types.pop(t, None)
                        T = [self.typeof(base.env[k], base)]
                        s.env[k] = t
                        if T[0] is not None and T[0] <= {"str", "int", "bool"}:
                            s.types[t] = T[0]
                        nxt.append(s)
                    else:
                        for a in sorted(alts, key=repr):
                            x = s.fork()
                            x.env[k] = a
                            nxt.append(x)
                elif kind == "heap":
                    if alts == "any":
                        if isinstance(k[1], tuple) and k[1][0] == "item" and k not in base.heap and any(y and y[0] == "elem" and y[1] not in base.loops[:-1] for y in walk(k[1][1])):
                            pass        # filed under another element than the one at hand
                        elif k in base.heap and base.heap[k] in base.cont:
                            self.nobj += 1
                            o = self.new_obj(s, base.ckind[base.heap[k]], [Item("seg", ("loopvar", k, lid))])
                            s.heap[k] = o
                        else:
                            s.heap[k] = ("loopvar", k, lid)
                        nxt.append(s)
                    else:
                        for a in sorted(alts, key=repr):
                            x = s.fork()
                            x.heap[k] = a
                            nxt.append(x)
                elif kind == "cont":
                    mark = Item("seg", ("prev", k, lid))
                    s.cont[k] = (tuple(base.cont[k]) if alts == "grow" else ()) + (mark,)
                    s.cver[k] = (s.cver.get(k, 0), "loop", lid)
                    nxt.append(s)
                elif kind == "mem":
                    for f in [f for f in s.facts if f[0] == "in" and f[2] == k]:
                        del s.facts[f]
                    nxt.append(s)
            states = nxt
        return states

    def s_While(self, n, st, fr):
        if self.policy.unroll:
            outs = self.unrolled(n, st.fork(), fr, self.policy.unroll)
            if outs is not None:
                return outs
        return self.while_generic(n, st, fr)

    def unrolled(self, n, st, fr, left):
        """Iterations whose condition is decided by constants; None when one is not."""
        cs = self.cond(n.test, st, fr)
        if len(cs) != 1 or isinstance(cs[0][0], Abr) or not left:
            return None
        b, s = cs[0]
        if not b:
            return self.block(n.orelse, s, fr) if n.orelse else [(None, s)]
        res = []
        for c, x in self.block(n.body, s, fr):
            if c is None or c[0] == "cont":
                r = self.unrolled(n, x, fr, left - 1)
                if r is None:
                    return None
                res.extend(r)
            elif c[0] == "break":
                res.append((None, x))
            else:
                res.append((c, x))
        return res

    def while_generic(self, n, st, fr):
        it = ("while", self.pos(fr, n))
        infinite = isinstance(n.test, ast.Constant) and bool(n.test.value)
        res = []
        entry = []
        if infinite:
            entry = [st]
        else:
            for b, s in self.cond(n.test, st.fork(), fr):
                if isinstance(b, Abr):
                    res.append((b.c, s))
                elif not b:
                    s.facts[("nonempty", it)] = False
                    res.extend(self.block(n.orelse, s, fr) if n.orelse else [(None, s)])
                else:
                    entry.append(s)
            if not entry:
                return res
        base = st.fork()
        base.loops = st.loops + (it,)

        def step(s):
            outs = []
            for b, x in ([(True, s)] if infinite else self.cond(n.test, s, fr)):
                if isinstance(b, Abr):
                    outs.append((b.c, x))
                elif b:
                    outs.extend(self.block(n.body, x, fr))
            return outs
        for c, s in self.fix(base, n, fr, step):
            s.loops = st.loops
            if c is None or c[0] == "cont":
                if infinite:
                    # leaving in the next iteration
                    s.loops = base.loops
                    for c2, x in self.block(n.body, s, fr):
                        x.loops = st.loops
                        if c2 is None or c2[0] == "cont":
                            continue
                        if c2[0] == "break":
                            self.event(x, "loopend", "break", it, (), (), NONE, self.pos(fr, n))
                            res.append((None, x))
                        else:
                            res.append((c2, x))
                    continue
                for b, x in self.cond(n.test, s, fr):
                    if isinstance(b, Abr):
                        res.append((b.c, x))
                    elif not b:
                        x.facts[("nonempty", it)] = True
                        self.event(x, "loopend", "exhausted", it, (), (), NONE, self.pos(fr, n))
                        res.extend(self.block(n.orelse, x, fr) if n.orelse else [(None, x)])
            elif c[0] == "break":
                self.event(s, "loopend", "break", it, (), (), NONE, self.pos(fr, n))
                res.append((None, s))
            else:
                res.append((c, s))
        return res

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                st.heap[(("mod", fr.module.name), t.id)] = v
                self.event(st, "setglobal", t.id, None, (v,), (), NONE, self.pos(fr, t))
                return [(None, st)]
            f = fr
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and (f.fid, t.id) not in st.env:
                    f = f.parent
                f = f or fr
            st.env[(f.fid, t.id)] = v
            return [(None, st)]
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, len(t.elts), st, bool(star))
            if vals is None:
                b, lo = v, 0
                if v[0] == "slice" and v[3] == NONE and v[4] == NONE and (v[2] == NONE or is_int_const(v[2]) and v[2][2] >= 0):
                    b, lo = v[1], 0 if v[2] == NONE else v[2][2]
                vals = [self.canon(("item", b, C(lo + i)), st) for i in range(len(t.elts))]
            outs = [(None, st)]
            for e, w in zip(t.elts, vals):
                nxt = []
                for c, s in outs:
                    nxt.extend([(c, s)] if c else self.assign(e.value if isinstance(e, ast.Starred) else e, w, s, fr))
                outs = nxt
            return outs
        if isinstance(t, ast.Attribute):
            def f(b, s):
                s.heap[(b, t.attr)] = v
                if b[0] != "obj" or b in s.cont or True:
                    self.event(s, "setattr", t.attr, b, (v,), (), NONE, self.pos(fr, t))
                return [(None, s)]
            return self.lift(self.eval(t.value, st, fr), f)
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice) and not t.slice.step and (t.slice.lower or t.slice.upper):
                def part(vs, s):
                    b, lo, hi = vs
                    a = (self._split_at(b, lo, s) if lo != NONE else 0) if b in s.cont else None
                    z = (self._split_at(b, hi, s) if hi != NONE else len(s.cont[b])) if b in s.cont else None
                    if a is None or z is None:
                        self.event(s, "setpart", "[:]", b, (v,), (("lo", lo), ("hi", hi)), NONE, self.pos(fr, t))
                        return [(None, s)]
                    new = [Item("item", x) for x in v[1]] if v[0] == "tup" else list(s.cont[v]) if v in s.cont else [Item("seg", v)]
                    new = [Item(i.mode, i.val, i.key, self.rel_loops(b, s) + tuple(i.loops), i.conds, self.pos(fr, t)) for i in new]
                    s.cont[b] = s.cont[b][:a] + tuple(new) + s.cont[b][max(a, z):]
                    self.bump(b, s)
                    if z <= a and all(i.mode == "item" for i in new):
                        for i in new:
                            self.mut_event(s, b, "insert", [lo, i.val], self.pos(fr, t))
                    else:
                        self.event(s, "setpart", "[:]", b, (v,), (), NONE, self.pos(fr, t))
                    return [(None, s)]
                nodes = [t.value, t.slice.lower or ast.Constant(None), t.slice.upper or ast.Constant(None)]
                return self.lift(self.evals(nodes, st, fr), part)
            if isinstance(t.slice, ast.Slice):
                def g(b, s):
                    whole = not (t.slice.lower or t.slice.upper or t.slice.step)
                    if b in s.cont and whole:
                        s.cont[b] = (Item("seg", v, None, s.loops),)
                        s.cver[b] = (s.cver.get(b), "w")
                    self.event(s, "setslice" if whole else "setpart", "[:]", b, (v,), (), NONE, self.pos(fr, t))
                    return [(None, s)]
                return self.lift(self.eval(t.value, st, fr), g)
            return self.lift(self.evals([t.value, t.slice], st, fr), lambda bs, s: self.lift(
                self.dict_set(bs[0], bs[1], v, s, fr, t), lambda _v, s2: [(None, s2)]))
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        raise AnalysisBroken(f"unsupported assignment target {type(t).__name__}")

    def unpack(self, v, n, st, star):
        if v[0] == "tup" and (len(v[1]) == n) and not star:
            return list(v[1])
        if v in st.cont and not star:
            its = st.cont[v]
            if len(its) == n and all(i.mode == "item" and not i.loops and not i.conds for i in its):
                return [i.val for i in its]
        if v[0] == "m" and v[1] in ("rpartition", "partition") and n == 3:
            return [("item", v, C(i)) for i in range(3)]
        return None

    # ------------------------------------------------------------------ expressions
    def evals(self, exprs, st, fr):
        outs = [([], st)]
        for e in exprs:
            nxt = []
            for vs, s in outs:
                if isinstance(vs, Abr):
                    nxt.append((vs, s))
                    continue
                for v, s2 in self.eval(e, s, fr):
                    nxt.append((v, s2) if isinstance(v, Abr) else (vs + [v], s2))
            outs = nxt
        return outs

    def eval(self, n, st, fr):
        self.steps += 1
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported expression {type(n).__name__} in {fr.name} line {getattr(n, 'lineno', 0)}")
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        return [(C(n.value), st)]

    def e_Name(self, n, st, fr):
        f = fr
        while f is not None:
            v = st.env.get((f.fid, n.id))
            if v is not None and not (f is fr and n.id in fr.globals_):
                return [(self.canon(v, st), st)]
            f = f.parent
        v = self.global_name(n.id, fr.module, st)
        if v[0] == "undef" and self.policy.none_deref:
            return [(Abr(("raise", ("exc", "NameError", ("none", self.pos(fr, n))))), st)]
        return [(v, st)]

    def global_name(self, name, module, st):
        h = st.heap.get((("mod", module.name), name))
        if h is not None:
            return h
        r = self.repo.lookup(module, name)
        if r is None:
            if hasattr(builtins, name) or name in ("__name__", "__file__", "__path__"):
                return ("ext", name)
            return ("undef", name)
        return self.binding(r)

    def binding(self, r):
        if r[0] == "func":
            return ("func", r[1].qual)
        if r[0] == "class":
            return ("cls", r[1].name)
        if r[0] == "ext":
            return ("ext", r[1])
        if r[0] == "mod":
            return ("mod", r[1])
        if r[0] == "const":
            expr, mod, name = r[1], r[2], r[3]
            if isinstance(expr, ast.Constant):
                return C(expr.value)
            g = self.simple_const(expr, mod)
            if g is not None:
                return g
            if isinstance(expr, ast.Name) or isinstance(expr, ast.Attribute):
                q = self.repo.resolve_dotted(mod, ast.unparse(expr))
                if q is not None:
                    return self.binding(q)
            return ("glob", f"{mod.name}:{name}")
        raise AnalysisBroken(f"binding {r}")

    def simple_const(self, expr, mod):
        """Module-level constant that is a small literal tuple/record, as a term."""
        if isinstance(expr, ast.Constant):
            return C(expr.value)
        if isinstance(expr, ast.Tuple) and len(expr.elts) <= 12:
            vs = []
            for e in expr.elts:
                if isinstance(e, (ast.Name, ast.Attribute)):
                    q = self.repo.resolve_dotted(mod, ast.unparse(e))
                    v = self.binding(q) if q is not None else None
                elif isinstance(e, ast.Starred) and isinstance(e.value, (ast.Name, ast.Attribute, ast.Tuple)):
                    if isinstance(e.value, ast.Tuple):
                        v = self.simple_const(e.value, mod)
                    else:
                        q = self.repo.resolve_dotted(mod, ast.unparse(e.value))
                        v = self.binding(q) if q is not None else None
                    if v is None or v[0] != "tup":
                        return None
                    vs.extend(v[1])
                    continue
                else:
                    v = self.simple_const(e, mod)
                if v is None:
                    return None
                vs.append(v)
            return ("tup", tuple(vs))
        if isinstance(expr, ast.JoinedStr):
            return None
        if isinstance(expr, ast.BinOp) and isinstance(expr.op, ast.Add):
            a, b = self.simple_const(expr.left, mod), self.simple_const(expr.right, mod)
            if a and b and is_str_const(a) and is_str_const(b):
                return C(a[2] + b[2])
            return None
        if isinstance(expr, ast.Call) and isinstance(expr.func, (ast.Name, ast.Attribute)):
            q = self.repo.resolve_dotted(mod, ast.unparse(expr.func))
            if q and q[0] == "class" and q[1].frozen:
                st = St()
                fr = self.new_frame(None, mod, None, name="<module>")
                try:
                    outs = self.eval(expr, st, fr)
                except AnalysisBroken:
                    return None
                if len(outs) == 1 and not isinstance(outs[0][0], Abr) and outs[0][0][0] == "rec":
                    return outs[0][0]
            if ast.unparse(expr.func) == "getattr" and len(expr.args) in (2, 3) and not expr.keywords \
                    and isinstance(expr.args[1], ast.Constant) and isinstance(expr.args[0], (ast.Name, ast.Attribute)):
                o = self.repo.resolve_dotted(mod, ast.unparse(expr.args[0]))
                if o and o[0] == "ext":
                    d = f"{o[1]}.{expr.args[1].value}"
                    if self.real_class(d) is not None:
                        return ("ext", d)
                    if len(expr.args) == 3 and isinstance(expr.args[2], (ast.Name, ast.Attribute)):
                        z = self.repo.resolve_dotted(mod, ast.unparse(expr.args[2]))
                        return self.binding(z) if z else None
            if q and q[0] == "ext" and q[1] == "textwrap.dedent" and len(expr.args) == 1:
                a = self.simple_const(expr.args[0], mod)
                if a and is_str_const(a):
                    import textwrap
                    return C(textwrap.dedent(a[2]))
            if q and q[0] == "ext" and q[1] == "frozenset" and len(expr.args) == 1 and isinstance(expr.args[0], (ast.Set, ast.Tuple, ast.List)):
                return None
        return None

    def const_coll(self, t):
        """Constant members of a module-level literal collection ('glob' term), or None."""
        if t[0] != "glob":
            return None
        mod, _, name = t[1].partition(":")
        r = self.repo.lookup(self.repo.modules[mod], name)
        if r is None or r[0] != "const":
            return None
        if name in self.written_globals():
            return None
        e = r[1]
        if isinstance(e, ast.Call) and len(e.args) == 1 and ast.unparse(e.func) in ("frozenset", "set", "tuple", "list"):
            e = e.args[0]
        if isinstance(e, (ast.Set, ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in e.elts):
            return [x.value for x in e.elts]
        if isinstance(e, ast.Dict) and all(isinstance(x, ast.Constant) for x in e.keys):
            return [x.value for x in e.keys]
        return None

    def const_values(self, t):
        """Types of the constant values of a module-level literal dictionary, or None."""
        if self.const_coll(t) is None:
            return None
        mod, _, name = t[1].partition(":")
        e = self.repo.lookup(self.repo.modules[mod], name)[1]
        if not isinstance(e, ast.Dict) or not e.values or not all(isinstance(x, ast.Constant) for x in e.values):
            return None
        return frozenset("None" if x.value is None else type(x.value).__name__ for x in e.values)

    def written_globals(self):
        """Names of module-level collections that some code in the package changes."""
        got = getattr(self.repo, "_written", None)
        if got is None:
            got = set()
            tops = {n for m in self.repo.modules.values() for n, b in m.names.items() if b[0] == "const"}
            for m in self.repo.modules.values():
                for n in ast.walk(m.tree):
                    x = None
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        x = n.value
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                            "add", "append", "update", "setdefault", "pop", "remove", "discard", "clear", "extend", "insert", "popitem"):
                        x = n.func.value
                    elif isinstance(n, ast.Global):
                        got.update(n.names)
                    elif isinstance(n, ast.AugAssign):
                        x = n.target
                    if isinstance(x, ast.Attribute):
                        x = ast.Name(x.attr)
                    if isinstance(x, ast.Name) and x.id in tops:
                        got.add(x.id)
            self.repo._written = got
        return got

    def e_NamedExpr(self, n, st, fr):
        def f(v, s):
            f2 = fr
            while f2.name == "<comp>" and f2.parent is not None:
                f2 = f2.parent
            return [(v if c is None else Abr(c), x) for c, x in self.assign(n.target, v, s, f2)]
        return self.bind(self.eval(n.value, st, fr), f)

    def e_Attribute(self, n, st, fr):
        def f(b, s):
            if self.policy.none_deref and n.attr not in NONE_ATTRS and self.known_none(b, s):
                return [(Abr(("raise", ("exc", "AttributeError", ("none", self.pos(fr, n))))), s)]
            if self.policy.none_deref and isinstance(n.ctx, ast.Load) and self.lacks(b, n.attr, s):
                return [(Abr(("raise", ("exc", "AttributeError", ("none", self.pos(fr, n))))), s)]
            return self.getattr(b, n.attr, s, fr, n)
        return self.bind(self.eval(n.value, st, fr), f)

    def lacks(self, b, name, st):
        """Can b be an object of a class that does not have the attribute?"""
        if b[0] not in ("call", "m", "attr", "item", "sym", "elem", "obj") or (b, name) in st.heap or name in OBJECT_ATTRS:
            return False
        S = self.typeof(b, st)
        bad = [c for c in S or () if c in self.repo.classes and not self.repo.may_have(c, name)]
        # a set of classes that was narrowed by tests, or one that rules every one out
        return bool(bad) and (len(bad) == len(S) or b in st.types and (
            any(k[0] == "isinst" and k[1] == b for k in st.facts) or not any(self.repo.subclasses(c) >= S for c in S)))

    def known_none(self, b, st):
        if b == NONE:
            return True
        if b[0] not in ("call", "m", "attr", "item", "sym", "elem"):
            return False
        rs = self.isinst(b, [("ext", "NoneType")], st.fork())
        return len(rs) == 1 and rs[0][0] is True

    def getattr(self, b, name, st, fr, node):
        v = st.heap.get((b, name))
        if v is not None:
            return [(self.canon(v, st), st)]
        k = b[0]
        if name == "__class__" and k in ("sym", "elem", "item", "attr", "call", "new"):
            S = self.typeof(b, st)
            if S is not None and len(S) == 1 and next(iter(S)) in self.repo.classes:
                return [(("cls", next(iter(S))), st)]
            return [(("type", b), st)]
        if k == "mod":
            m = self.repo.modules.get(b[1])
            r = self.repo.lookup(m, name) if m else None
            if r is None and f"{b[1]}.{name}" in self.repo.modules:
                r = ("mod", f"{b[1]}.{name}")
            return [(self.binding(r) if r else ("ext", f"{b[1]}.{name}"), st)]
        if k == "ext":
            return [(self.canon(("ext", f"{b[1]}.{name}"), st), st)]
        if k == "cls":
            return [(self.class_attr(b, name), st)]
        if k == "rec":
            for f, v in b[2]:
                if f == name:
                    return [(v, st)]
            ci = self.repo.classes[b[1]]
            fi = self.repo.find_method(ci, name)
            if fi is not None:
                return self.method_ref(fi, b, st, fr, node)
        if k == "super":
            _, recv, cname = b
            ci = self.repo.classes[cname]
            for c in self.repo.mro(ci)[1:]:
                if name in c.methods:
                    return [(("bm", recv, c.methods[name].qual, c.name), st)]
                if name == "__init__" and c.dataclass and c.dc_init:
                    return [(("dcinit", recv, c.name), st)]
            return [(("bmext", recv, name), st)]
        if k == "enum":
            if name == "value":
                ci = self.repo.classes[b[1]]
                e = ci.consts.get(b[2])
                if isinstance(e, ast.Constant):
                    return [(C(e.value), st)]
            if name == "name":
                return [(C(b[2]), st)]
        if k == "type" and name in ("__name__", "__qualname__"):
            S = self.typeof(b[1], st)
            if S is not None and len(S) == 1 and not next(iter(S)).endswith("+"):
                return [(C(next(iter(S)).split(".")[-1]), st)]
            return [(self.canon(("attr", b, "__name__"), st), st)]
        S = self.typeof(b, st)
        if S:
            S2 = [c for c in S if c != "None"]
            cis = [self.repo.classes.get(c) for c in S2]
            if S2 and all(cis):
                fis = {self.repo.find_method(c, name) for c in cis}
                if len(fis) == 1:
                    fi = next(iter(fis))
                    if fi is not None:
                        return self.method_ref(fi, b, st, fr, node)
                if name == "identifier" and all("BaseNode" in [m.name for m in self.repo.mro(c)] for c in cis):
                    return self.getattr(b, "name", st, fr, node)
                consts = {ast.dump(c.consts[name]) for c in cis if name in c.consts}
                if len(consts) == 1 and all(name in c.consts for c in cis):
                    e = cis[0].consts[name]
                    if isinstance(e, ast.Constant):
                        return [(C(e.value), st)]
                if any(c.methods.get(name) is None and self.repo.find_method(c, name) is None for c in cis) or len(fis) > 1:
                    pass
        t = ("attr", b, name)
        return [(self.canon(t, st), st)]

    def method_ref(self, fi, b, st, fr, node):
        if fi.is_property:
            if fi.name == "identifier" or b[0] in ("rec",) or fi.qual in self.policy.inline_props or (b[0] == "obj") \
                    or (fi.cls.name not in ("Package", "NamespacePackage", "ImportInfo", "Module") and not fi.cls.name.endswith("Node")):
                return self.call_func(fi, b, [], [], st, fr, node)
            return [(self.canon(("attr", b, fi.name), st), st)]
        if fi.is_static:
            return [(("func", fi.qual), st)]
        if fi.is_classmethod:
            return [(("bm", ("cls", fi.cls.name), fi.qual, fi.cls.name), st)]
        return [(("bm", b, fi.qual, fi.cls.name), st)]

    def class_attr(self, b, name):
        ci = self.repo.classes.get(b[1])
        if ci is None:
            return ("attr", b, name)
        for c in self.repo.mro(ci):
            if name in c.consts:
                if any(e.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for m in self.repo.mro(ci) for e in m.ext_bases):
                    return ("enum", ci.name, name)
                v = self.simple_const(c.consts[name], c.module)
                return v if v is not None else ("attr", b, name)
            if name in c.methods:
                fi = c.methods[name]
                if fi.is_classmethod:
                    return ("bm", b, fi.qual, c.name)
                return ("func", fi.qual)
        if name == "__name__":
            return C(b[1])
        return ("attr", b, name)

    def canon(self, t, st):
        d = st.dom.get(t)
        if d is not None and d[0] == "in" and len(d[1]) == 1:
            v = next(iter(d[1]))
            S = self.typeof(t, st)
            if not (is_str_const(v) and S and any(c in self.repo.classes for c in S)):
                return v
        if t[0] not in ("c",) and st.types.get(t) == frozenset(["None"]):
            return NONE
        return t

    def e_Tuple(self, n, st, fr):
        return self.seq_lit(n, st, fr, "tuple")

    def e_List(self, n, st, fr):
        return self.seq_lit(n, st, fr, "list")

    def e_Set(self, n, st, fr):
        return self.seq_lit(n, st, fr, "set")

    def seq_lit(self, n, st, fr, kind):
        plain = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]

        def f(vs, s):
            if kind == "tuple" and not any(isinstance(e, ast.Starred) for e in n.elts):
                return [(("tup", tuple(vs)), s)]
            items = []
            for e, v in zip(n.elts, vs):
                if isinstance(e, ast.Starred):
                    if v[0] == "tup":
                        items += [Item("item", x) for x in v[1]]
                    elif v in s.cont:
                        items += list(s.cont[v])
                    else:
                        items.append(Item("seg", v))
                else:
                    items.append(Item("item", v))
            if kind == "tuple" and all(i.mode == "item" and not i.loops and not i.conds for i in items):
                return [(("tup", tuple(i.val for i in items)), s)]
            return [(self.new_obj(s, kind, items), s)]
        return self.bind(self.evals(plain, st, fr), f)

    def e_Dict(self, n, st, fr):
        keys = [k for k in n.keys if k is not None]

        def f(vs, s):
            ks, vals = vs[: len(keys)], vs[len(keys):]
            ks = list(ks)
            items = []
            for k, v in zip(n.keys, vals):
                if k is None:
                    items.append(Item("seg", v))
                else:
                    items.append(Item("item", v, ks.pop(0)))
            return [(self.new_obj(s, "dict", items), s)]
        return self.bind(self.evals(keys + list(n.values), st, fr), f)

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(v)
            else:
                parts.append(v)

        def f(vs, s):
            out = []
            for p, v in zip(parts, vs):
                if isinstance(p, ast.FormattedValue):
                    if p.conversion not in (-1, 115) or p.format_spec is not None:
                        spec = p.format_spec
                        if spec is None or all(isinstance(x, ast.Constant) for x in spec.values):
                            spec = "".join(x.value for x in spec.values) if spec is not None else ""
                        else:
                            spec = ast.unparse(spec)
                        v = ("fmt", v, p.conversion, spec)
                    else:
                        v = self.to_str(v, s, implicit=True)
                out.append(v)
            return [(cat(out), s)]
        return self.bind(self.evals([p.value if isinstance(p, ast.FormattedValue) else p for p in parts], st, fr), f)

    def to_str(self, v, st, implicit=False):
        if is_const(v):
            return C(str(v[2]))
        S = self.typeof(v, st)
        if S is not None and all(self.issub(c, "str") for c in S):
            return v
        if v[0] in ("cat", "rep", "join", "str"):
            return v
        if implicit or v[0] in ("exc",):
            return v
        return ("str", v)

    def e_Subscript(self, n, st, fr):
        if isinstance(n.slice, ast.Slice):
            es = [x for x in (n.slice.lower, n.slice.upper, n.slice.step) if x is not None]

            def g(vs, s):
                b, rest = vs[0], list(vs[1:])
                lo = rest.pop(0) if n.slice.lower is not None else NONE
                hi = rest.pop(0) if n.slice.upper is not None else NONE
                step = rest.pop(0) if n.slice.step is not None else NONE
                return [(self.mkslice(b, lo, hi, step, s), s)]
            return self.bind(self.evals([n.value] + es, st, fr), g)
        return self.bind(self.evals([n.value, n.slice], st, fr), lambda vs, s: self.subscript(vs[0], vs[1], s, fr, n))

    def mkslice(self, b, lo, hi, step, st):
        if all(is_const(x) for x in (b, lo, hi, step)):
            try:
                return C(b[2][lo[2]:hi[2]:step[2]])
            except (TypeError, ValueError):
                pass
        if b[0] == "tup" and all(is_const(x) for x in (lo, hi, step)):
            return ("tup", b[1][lo[2]:hi[2]:step[2]])
        if step == C(-1) and lo == NONE and hi == NONE:
            return ("order_of", "reversed", b)
        if lo == NONE and hi == NONE and step == NONE:
            if b in st.cont:
                return self.new_obj(st, st.ckind[b], st.cont[b])
            S = self.typeof(b, st)
            if S is not None and all(self.issub(c, "str") for c in S):
                return b
            return self.new_obj(st, "list", [Item("seg", b)])
        if b in st.cont and step == NONE:
            a = self._split_at(b, lo, st) if lo != NONE else 0
            z = self._split_at(b, hi, st) if hi != NONE else len(st.cont[b])
            if a is not None and z is not None:
                return self.new_obj(st, st.ckind[b], st.cont[b][a:z])
        if hi == NONE and step == NONE and is_const(lo) and lo[2] == 0 and b not in st.cont:
            return b if self.typeof(b, st) == frozenset(["str"]) else ("slice", b, NONE, hi, step)
        # s[len(prefix):] style cuts are normalised to removeprefix
        return ("slice", b, lo if lo != C(0) else NONE, hi, step)

    def _split_at(self, b, pos, st):
        """Index into the contributions of container b denoted by an integer term, if known."""
        items = st.cont[b]
        if is_int_const(pos):
            n = pos[2]
            if n >= 0:
                if all(i.mode == "item" and not i.loops and not i.conds for i in items[:n]) and n <= len(items):
                    return n
                return None
            if all(i.mode == "item" and not i.loops and not i.conds for i in items[n:]) and -n <= len(items):
                return len(items) + n
            return None
        if pos[0] == "lenof" and pos[1] == b:
            if tuple(i.sig() for i in items[: len(pos[2])]) == pos[2]:
                return len(pos[2])
        return None

    def subscript(self, b, k, st, fr, node):
        if (b, ("item", k)) in st.heap:
            return [(st.heap[(b, ("item", k))], st)]
        if b[0] == "tup" and is_int_const(k):
            try:
                return [(b[1][k[2]], st)]
            except IndexError:
                return [(Abr(("raise", ("exc", "IndexError", self.pos(fr, node)))), st)]
        if b[0] == "c" and is_const(k):
            try:
                return [(C(b[2][k[2]]), st)]
            except (IndexError, TypeError, KeyError):
                pass
        if b in st.cont:
            kind = st.ckind[b]
            items = st.cont[b]
            if kind == "dict":
                for i in reversed(items):
                    if i.mode == "item" and i.key == k:
                        return [(i.val, st)]
            elif is_int_const(k):
                n = k[2]
                simple = lambda xs: all(i.mode == "item" and not i.loops and not i.conds for i in xs)  # noqa: E731
                if n >= 0 and len(items) > n and simple(items[: n + 1]):
                    return [(items[n].val, st)]
                if n < 0 and len(items) >= -n and simple(items[n:]):
                    return [(items[n].val, st)]
        if b[0] == "slice" and is_int_const(k) and k[2] >= 0 and b[4] == NONE and (b[2] == NONE or is_int_const(b[2]) and b[2][2] >= 0) and b[3] == NONE:
            return self.subscript(b[1], C(k[2] + (0 if b[2] == NONE else b[2][2])), st, fr, node)
        fact = st.facts.get(("in", k, b))
        pos = self.pos(fr, node)
        outs = []
        if self.policy.none_deref and self.known_none(b, st):
            return [(Abr(("raise", ("exc", "TypeError", ("none", pos)))), st)]
        always = self.policy.lookup_raises == "tables" and b[0] == "glob"
        if self.policy.lookup_raises and fact is not True and (always or self.catches(("KeyError", "IndexError"))):
            if fact is None:
                s2 = st.fork()
                s2.facts[("in", k, b)] = False
                cls = "KeyError" if always or self.catches(("KeyError",)) else "IndexError"
                outs.append((Abr(("raise", ("exc", cls, pos))), s2))
                st.facts[("in", k, b)] = True
            elif fact is False:
                return [(Abr(("raise", ("exc", "KeyError", pos))), st)]
        t = ("item", b, k)
        outs.append((self.canon(t, st), st))
        return outs

    def catches(self, names):
        for h in self.handlers:
            for x in h:
                if any(self.exc_sub(n, x) for n in names):
                    return True
        return False

    def e_Starred(self, n, st, fr):
        return self.bind(self.eval(n.value, st, fr), lambda v, s: [(("star", v), s)])

    def e_IfExp(self, n, st, fr):
        res = []
        for b, s in self.cond(n.test, st, fr):
            if isinstance(b, Abr):
                res.append((b, s))
            else:
                res.extend(self.eval(n.body if b else n.orelse, s, fr))
        return res

    def e_BoolOp(self, n, st, fr):
        is_and = isinstance(n.op, ast.And)
        outs = [(None, st)]
        done = []
        for i, e in enumerate(n.values):
            nxt = []
            for _, s in outs:
                for v, s2 in self.eval(e, s, fr):
                    if isinstance(v, Abr) or i == len(n.values) - 1:
                        done.append((v, s2))
                        continue
                    for b, s3 in self.truth(v, s2):
                        if b == is_and:
                            nxt.append((None, s3))
                        else:
                            if self.typeof(v, s3) == frozenset(["bool"]):
                                v = C(b)
                            done.append((v, s3))
            outs = nxt
        return done

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            return [(b if isinstance(b, Abr) else C(not b), s) for b, s in self.cond(n.operand, st, fr)]

        def f(v, s):
            if isinstance(n.op, ast.USub):
                return [(lin_scale(v, -1), s)]
            if isinstance(n.op, ast.UAdd):
                return [(v, s)]
            return [(("op", "~", v), s)]
        return self.bind(self.eval(n.operand, st, fr), f)

    def e_Compare(self, n, st, fr):
        return [(b if isinstance(b, Abr) else C(b), s) for b, s in self.compare(n, st, fr)]

    def e_BinOp(self, n, st, fr):
        return self.bind(self.evals([n.left, n.right], st, fr), lambda vs, s: self.binop(n.op, vs[0], vs[1], s, fr, n))

    def binop(self, op, a, b, st, fr, node):
        o = type(op).__name__
        if o == "Mod" and (is_str_const(a)):
            return [(self.percent(a, b, st), st)]
        if is_const(a) and is_const(b):
            try:
                x, y = a[2], b[2]
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "FloorDiv": lambda: x // y,
                     "Mod": lambda: x % y, "BitOr": lambda: x | y, "BitAnd": lambda: x & y, "RShift": lambda: x >> y,
                     "LShift": lambda: x << y, "Div": lambda: x / y, "Pow": lambda: x ** y, "BitXor": lambda: x ^ y}[o]()
                return [(C(r), st)]
            except Exception:
                pass
        if o == "Add":
            if a in st.cont or b in st.cont or a[0] == "tup" or b[0] == "tup":
                items = self.as_items(a, st) + self.as_items(b, st)
                if a[0] == "tup" and b[0] == "tup":
                    return [(("tup", a[1] + b[1]), st)]
                kind = st.ckind.get(a) or st.ckind.get(b) or "list"
                return [(self.new_obj(st, kind, items), st)]
            S1, S2 = self.typeof(a, st), self.typeof(b, st)
            if (S1 and all(self.issub(c, "str") for c in S1)) or (S2 and all(self.issub(c, "str") for c in S2)):
                return [(cat([a, b]), st)]
            if is_int_const(a) or is_int_const(b) or (S1 == {"int"}) or (S2 == {"int"}) or a[0] == "lin" or b[0] == "lin":
                return [(lin_add(a, b), st)]
            if S1 and S1 & {"list", "tuple"} or S2 and S2 & {"list", "tuple"}:
                return [(self.new_obj(st, "list", self.as_items(a, st) + self.as_items(b, st)), st)]
            return [(("op", "+", a, b), st)]
        if o == "Sub":
            if a in st.cont and st.ckind[a] in ("set", "frozenset") or (a in st.cont) or (b in st.cont):
                r = self.new_obj(st, "set", self.as_items(a, st))
                st.minus[r] = st.minus.get(a, ()) + (self.deep(b, st),)
                return [(r, st)]
            S1 = self.typeof(a, st)
            if S1 and S1 & {"set", "frozenset"}:
                r = self.new_obj(st, "set", self.as_items(a, st))
                st.minus[r] = (self.deep(b, st),)
                return [(r, st)]
            return [(lin_add(a, b, -1), st)]
        if o == "BitOr":
            if a in st.cont or b in st.cont:
                kind = st.ckind.get(a) or st.ckind.get(b)
                r = self.new_obj(st, kind, self.as_items(a, st) + self.as_items(b, st))
                mm = st.minus.get(a, ()) + st.minus.get(b, ())
                if mm:
                    st.minus[r] = mm
                return [(r, st)]
            if a[0] in ("cls", "ext", "union") and b[0] in ("cls", "ext", "union") or (a == NONE or b == NONE):
                xs = (a[1] if a[0] == "union" else (a,)) + (b[1] if b[0] == "union" else (b,))
                return [(("union", xs), st)]
        if o == "Mult":
            if is_str_const(a):
                return [(("rep", a, b), st)]
            if is_str_const(b):
                return [(("rep", b, a), st)]
            if is_int_const(a):
                return [(lin_scale(b, a[2]), st)]
            if is_int_const(b):
                return [(lin_scale(a, b[2]), st)]
        if o == "FloorDiv" and b == C(2):
            return [(("op", "RShift", a, C(1)), st)]
        if o == "Div":
            S = self.typeof(a, st)
            t = ("m", "joinpath", a, (b,))
            st.types[t] = frozenset(["pathlib.Path+"])
            return [(t, st)]
        return [(("op", o, a, b), st)]

    def as_items(self, v, st):
        if v in st.cont:
            return list(st.cont[v])
        if v[0] == "tup":
            return [Item("item", x) for x in v[1]]
        return [Item("seg", v)]

    def percent(self, a, b, st):
        import re
        fmt = a[2]
        args = list(b[1]) if b[0] == "tup" else [b]
        pieces = re.split(r"(%[-#0 +]*\d*(?:\.\d+)?[sdr%])", fmt)
        out = []
        for p in pieces:
            if p == "%%":
                out.append(C("%"))
            elif p.startswith("%") and len(p) > 1:
                if not args:
                    return ("op", "%", a, b)
                v = args.pop(0)
                if p in ("%s", "%d"):
                    out.append(self.to_str(v, st, implicit=True))
                else:
                    m = re.fullmatch(r"%([-#0 +]*)(\d*)(\.\d+)?([sdr])", p)
                    fl, width, prec, kind = m.groups()
                    if kind == "d":
                        spec = ("<" if "-" in fl else "") + fl.replace("-", "").replace("#", "") + width + "d"
                    else:
                        spec = ("<" if "-" in fl else ">") + width + (prec or "") if width else prec or ""
                    out.append(("fmt", v, 114 if kind == "r" else 115 if kind == "s" else -1, spec))
            elif p:
                out.append(C(p))
        return cat(out)

    def e_Lambda(self, n, st, fr):
        return [(self.closure(n, fr), st)]

    def closure(self, n, fr):
        key = (id(n), fr.fid)
        self._closures[key] = (n, fr)
        return ("clo", key, getattr(n, "name", "<lambda>"), getattr(n, "lineno", 0))

    def e_Await(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        f2 = fr
        while f2.on_yield is None and f2.parent is not None and f2.name == "<comp>":
            f2 = f2.parent

        def f(v, s):
            res = []
            for c, x in f2.on_yield(v, s):
                if c is None:
                    res.append((NONE, x))
                elif c[0] == "throw":
                    res.append((Abr(("raise", c[1])), x))
                else:
                    res.append((Abr(c), x))
            return res
        if f2.on_yield is None:
            raise AnalysisBroken(f"yield outside a driven generator in {fr.name}")
        if n.value is None:
            return f(NONE, st)
        return self.bind(self.eval(n.value, st, fr), f)

    def e_YieldFrom(self, n, st, fr):
        def f(it, s):
            def body(e, x):
                return fr.on_yield(e, x)
            return [(NONE if c is None else Abr(("raise", c[1]) if c[0] == "throw" else c), x) for c, x in self.iterate(it, s, fr, n, body)]
        return self.bind(self.eval(n.value, st, fr), f)

    # -- comprehensions ---------------------------------------------------------
    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, "list")

    def e_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, "set")

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, st, fr, "genexp")

    def e_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, "dict")

    def comp_drive(self, n, st, fr, body):
        """Run body(value(s), st) for every element the comprehension produces."""
        cfr = self.new_frame(fr.fi, fr.module, fr.cls, parent=fr, on_yield=None, name="<comp>")
        gens = list(n.generators)

        def level(i, s):
            if i == len(gens):
                return body(s, cfr)
            g = gens[i]

            def with_iter(it, s1):
                def each(e, s2):
                    res = []
                    for c, s3 in self.assign(g.target, e, s2, cfr):
                        if c:
                            res.append((c, s3))
                            continue
                        cur, nope = [s3], []
                        for test in g.ifs:
                            nxt = []
                            for x in cur:
                                for b, y in self.cond(test, x, cfr):
                                    if isinstance(b, Abr):
                                        res.append((b.c, y))
                                    elif b:
                                        nxt.append(y)
                                    else:
                                        nope.append(y)
                            cur = nxt
                        for x in cur:
                            res.extend(level(i + 1, x))
                        res.extend((None, x) for x in nope)
                    return res
                return self.iterate(it, s1, fr, n, each)
            return self.lift(self.eval(g.iter, s, cfr if i else fr), with_iter)
        return level(0, st)

    def comp(self, n, st, fr, kind):
        elts = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
        # summary run on a copy: collect contributions per arm
        contribs = []
        effects = []
        probe = st.fork()
        nev = len(probe.events)

        def body(s, cfr):
            res = []
            for vs, s2 in self.evals(elts, s, cfr):
                if isinstance(vs, Abr):
                    effects.append(1)
                    res.append((vs.c, s2))
                    continue
                val = vs[-1]
                key = vs[0] if len(vs) == 2 else None
                if any(e.kind not in ("loopend",) for e in s2.events[nev:]):
                    effects.append(1)
                loops = tuple(s2.loops[len(st.loops):])
                contribs.append(Item("item", val, key, loops, self.delta(st, s2), self.pos(fr, n)))
                res.append((None, s2))
            return res
        outs = self.comp_drive(n, probe, fr, body)
        for c, s in outs:
            if c is not None or any(e.kind not in ("loopend",) for e in s.events[nev:]):
                effects.append(1)
        if not effects:
            uniq = []
            for i in contribs:
                if i not in uniq:
                    uniq.append(i)
            for i in uniq:     # objects created while evaluating elements
                for sub in walk(i.val):
                    if sub and sub[0] == "obj":
                        for c, s in outs:
                            if sub in s.cont and sub not in st.cont:
                                st.cont[sub], st.ckind[sub], st.cver[sub] = s.cont[sub], s.ckind[sub], s.cver[sub]
                            for (o, a), v in s.heap.items():
                                if o == sub:
                                    st.heap[(o, a)] = v
            k = "list" if kind == "genexp" else kind
            return [(self.new_obj(st, k, uniq), st)]
        # effectful: same as a statement loop
        o = self.new_obj(st, "list" if kind == "genexp" else kind, ())

        def body2(s, cfr):
            res = []
            for vs, s2 in self.evals(elts, s, cfr):
                if isinstance(vs, Abr):
                    res.append((vs.c, s2))
                    continue
                s2.cont[o] = s2.cont[o] + (Item("item", vs[-1], vs[0] if len(vs) == 2 else None, tuple(s2.loops[len(st.loops):]), ()),)
                res.append((None, s2))
            return res
        res = []
        for c, s in self.comp_drive(n, st.fork(), fr, body2):
            res.append((o if c is None else Abr(c), s))
        return res

    def delta(self, a, b):
        out = []
        for k, v in b.facts.items():
            if a.facts.get(k) != v:
                if k[0] == "nonempty":
                    continue
                out.append(("fact", k, v))
        for k, v in b.types.items():
            if a.types.get(k) != v:
                out.append(("type", k, v))
        for k, v in b.dom.items():
            if a.dom.get(k) != v:
                out.append(("dom", k, v))
        for k, v in b.bounds.items():
            if a.bounds.get(k) != v:
                out.append(("bounds", k, v))
        return tuple(sorted(out, key=repr))

    # ------------------------------------------------------------------ conditions
    def cond(self, n, st, fr):
        """[(bool|Abr, st)] for an expression used as a condition."""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(b if isinstance(b, Abr) else not b, s) for b, s in self.cond(n.operand, st, fr)]
        if isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            outs, done = [st], []
            for i, e in enumerate(n.values):
                nxt = []
                for s in outs:
                    for b, s2 in self.cond(e, s, fr):
                        if isinstance(b, Abr) or b != is_and or i == len(n.values) - 1:
                            done.append((b, s2))
                        else:
                            nxt.append(s2)
                outs = nxt
            return done
        if isinstance(n, ast.Compare):
            return self.compare(n, st, fr)
        return self.bind_cond(self.eval(n, st, fr), self.truth)

    def truth(self, v, st):
        v = self.canon(v, st)
        k = v[0]
        if k == "c":
            return [(bool(v[2]), st)]
        if k == "tup":
            return [(bool(v[1]), st)]
        if v in st.cont:
            items = st.cont[v]
            if not items:
                return [(False, st)]
            if any(i.mode == "item" and not i.conds and (not i.loops or self.policy.skip_prev and all(l in st.loops or st.facts.get(("nonempty", l)) is True for l in i.loops)) for i in items) and v not in st.minus:
                return [(True, st)]
            if len(items) <= 8 and v not in st.minus and all(i.mode == "item" and not i.loops for i in items):
                # empty exactly when none of the conditional members is there
                if ("truth", v, st.cver.get(v)) in st.facts:
                    return self.fork_fact(("truth", v, st.cver.get(v)), st)
                outs, cur = [], [st]
                for i in items:
                    nxt = []
                    for x in cur:
                        yes = self.assume(x.fork(), i.conds)
                        if yes is not None:
                            yes.facts[("truth", v, st.cver.get(v))] = True
                            outs.append((True, yes))
                        nxt.extend(self.assume_not(x, i.conds))
                    cur = nxt
                for x in cur:
                    x.facts[("truth", v, st.cver.get(v))] = False
                    outs.append((False, x))
                return outs
            srcs = {i.val if i.mode == "seg" else (i.loops[0] if len(i.loops) == 1 else None) for i in items}
            key = ("truth", v, st.cver.get(v))
            if len(srcs) == 1 and None not in srcs and v not in st.minus and not any(i.conds for i in items) and not any(l in st.loops for l in srcs):
                key = ("nonempty", next(iter(srcs)))
                if key[1][0] == "prev":
                    key = ("truth", v, st.cver.get(v))
            return self.fork_fact(key, st)
        if k in ("func", "bm", "clo", "partial", "cls", "mod", "enum", "rec", "exc", "gen") or (k == "obj" and v[2] in self.repo.classes):
            return [(True, st)]
        if k == "cat" and any(is_str_const(p) for p in v[1]):
            return [(True, st)]
        if k == "lin" or (k == "call" and v[1] == "len") or self.typeof(v, st) == frozenset(["int"]):
            return [(not b, s) for b, s in self.num_eq(v, C(0), st)]
        if k == "lenof":
            return self.truth(v[1], st)
        S = self.typeof(v, st)
        if S is not None:
            yes, no = set(), set()
            for c in S:
                if c == "None":
                    no.add(c)
                elif self.truthy_class(c):
                    yes.add(c)
                else:
                    yes.add(c)
                    no.add(c)
            if not no:
                return [(True, st)]
            if not yes:
                return [(False, st)]
            f = st.facts.get(("truth", v))
            if f is None and self.sized(v, st):
                f = st.facts.get(("nonempty", v))
            if f is True:
                return [(True, st)]
            if f is False:
                return [(False, st)]
            d = st.dom.get(v)
            outs = []
            s1, s2 = st.fork(), st
            s1.types[v] = frozenset(yes)
            s2.types[v] = frozenset(no)
            if yes & no:
                s1.facts[("truth", v)] = True
                s2.facts[("truth", v)] = False
                if all(self.issub(c, "str") for c in S):
                    s2.dom[v] = ("in", frozenset([C("")]))
                    s1.dom[v] = _dom_meet(s1.dom.get(v), ("notin", frozenset([C("")]))) or ("notin", frozenset([C("")]))
            if d and d[0] == "in":
                if all(is_const(x) and not x[2] for x in d[1]):
                    return [(False, s2)]
                if all(not is_const(x) or x[2] for x in d[1]):
                    return [(True, s1)]
            if d and d[0] == "notin" and all(self.issub(c, "str") for c in S) and C("") in d[1]:
                return [(True, s1)]
            return [(True, s1), (False, s2)]
        d = st.dom.get(v)
        if d is not None and d[0] == "in" and all(is_const(x) for x in d[1]):
            t = [x for x in d[1] if x[2]]
            f = [x for x in d[1] if not x[2]]
            if not f:
                return [(True, st)]
            if not t:
                return [(False, st)]
        if d is not None and d[0] == "notin" and ("truth", v) not in st.facts and False:
            pass
        if st.facts.get(("isinst", v, "None")) is True:
            return [(False, st)]
        if ("truth", v) not in st.facts and ("nonempty", v) in st.facts and self.sized(v, st):
            return [(st.facts[("nonempty", v)], st)]
        return self.fork_fact(("truth", v), st)

    def sized(self, v, st):
        """Is the value an instance of a builtin container, true exactly when it has elements?"""
        S = self.typeof(v, st)
        if S:
            return all(c.rstrip("+") in SIZED for c in S)
        return any(st.facts.get(("isinst", v, c)) is True for c in SIZED)

    def truthy_class(self, c):
        base = c[:-1] if c.endswith("+") else c
        if base in NONTRUTHY:
            return False
        ci = self.repo.classes.get(base)
        if ci is not None:
            if any(self.issub(base, x) for x in ("str", "int", "list", "dict", "tuple")):
                return False
            return not (self.repo.find_method(ci, "__bool__") or self.repo.find_method(ci, "__len__"))
        rc = self.real_class(base)
        if rc is not None:
            return not (hasattr(rc, "__len__") or hasattr(rc, "__bool__"))
        last = base.split(".")[-1]
        if last in ("Iterable", "Iterator", "Sequence", "Mapping", "Deque"):
            return False
        return True

    def fork_fact(self, key, st):
        f = st.facts.get(key)
        if f is not None:
            return [(f, st)]
        s2 = st.fork()
        st.facts[key] = True
        s2.facts[key] = False
        return [(True, st), (False, s2)]

    def compare(self, n, st, fr):
        operands = [n.left] + list(n.comparators)

        def f(vs, s):
            states, done = [s], []
            for i, op in enumerate(n.ops):
                nxt = []
                for x in states:
                    for b, y in self.cmp(op, vs[i], vs[i + 1], x, fr, n):
                        if isinstance(b, Abr) or not b or i == len(n.ops) - 1:
                            done.append((b, y))
                        else:
                            nxt.append(y)
                states = nxt
            return done
        return self.bind_cond(self.evals(operands, st, fr), f)

    def cmp(self, op, a, b, st, fr, node):
        o = type(op).__name__
        a, b = self.canon(a, st), self.canon(b, st)
        neg = o in ("NotEq", "IsNot", "NotIn")
        if o in ("Eq", "NotEq", "Is", "IsNot"):
            outs = self.eq(a, b, st, ident=o in ("Is", "IsNot"))
        elif o in ("In", "NotIn"):
            outs = self.member(a, b, st, fr, node)
        elif o == "Lt":
            outs = self.num_le(lin_add(lin_add(a, b, -1), C(1)), st, a, b, "<")
        elif o == "LtE":
            outs = self.num_le(lin_add(a, b, -1), st, a, b, "<=")
        elif o == "Gt":
            outs = self.num_le(lin_add(lin_add(b, a, -1), C(1)), st, b, a, "<")
        elif o == "GtE":
            outs = self.num_le(lin_add(b, a, -1), st, b, a, "<=")
        else:
            raise AnalysisBroken(f"comparison {o}")
        return [(b if isinstance(b, Abr) else (b != neg), s) for b, s in outs]

    # -- numbers: bounds on linear forms
    def nonneg(self, t, st):
        if t[0] in ("idx", "lenof"):
            return True
        if t[0] == "call" and t[1] == "len":
            return True
        if t[0] == "attr" and t[2] in ("import_level", "arg", "level"):
            return True
        return t[0] == "sym" and t[1] in ("import_level", "level")

    def interval(self, coefs, st):
        key = tuple(sorted(coefs.items(), key=repr))
        lo, hi = st.bounds.get(key, (None, None))
        if lo is None and len(coefs) == 1:
            (t, c), = coefs.items()
            if c == 1 and self.nonneg(t, st):
                lo = 0
        return key, lo, hi

    def _norm(self, coefs, const):
        """sum(coefs)+const -> (canonical coefs, sign) with first coefficient positive."""
        items = sorted(coefs.items(), key=repr)
        sign = 1 if items[0][1] > 0 else -1
        return {k: v * sign for k, v in items}, sign

    def num_le(self, lin, st, a, b, opname):
        """lin <= 0 ?"""
        if is_const(lin):
            return [(lin[2] <= 0, st)]
        S1, S2 = self.typeof(a, st), self.typeof(b, st)
        if any(S is not None and not (S <= {"int", "bool"}) for S in (S1, S2)) or any(x[0] == "attr" and x[1] == ("ext", "sys.version_info") for x in (a, b)):
            return self.fork_fact(("cmp", opname, a, b), st)
        if any(w and w[0] in ("ext",) for x in (a, b) for w in [x]) or any(x[0] in ("tup", "slice") for x in (a, b)):
            return self.fork_fact(("cmp", opname, a, b), st)
        c, d = to_lin(lin)
        coefs, sign = self._norm(d, c)
        key, lo, hi = self.interval(coefs, st)
        if sign > 0:       # L <= -c
            bound = -c
            if hi is not None and hi <= bound:
                return [(True, st)]
            if lo is not None and lo > bound:
                return [(False, st)]
            s2 = st.fork()
            st.bounds[key] = (lo, bound)
            s2.bounds[key] = (bound + 1, hi)
        else:              # -L + c <= 0  ->  L >= c
            bound = c
            if lo is not None and lo >= bound:
                return [(True, st)]
            if hi is not None and hi < bound:
                return [(False, st)]
            s2 = st.fork()
            st.bounds[key] = (bound, hi)
            s2.bounds[key] = (lo, bound - 1)
        return [(True, st), (False, s2)]

    def num_eq(self, a, b, st):
        lin = lin_add(a, b, -1)
        if is_const(lin):
            return [(lin[2] == 0, st)]
        c, d = to_lin(lin)
        coefs, sign = self._norm(d, c)
        v = -c * sign
        key, lo, hi = self.interval(coefs, st)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            return [(False, st)]
        if lo is not None and lo == hi == v:
            return [(True, st)]
        f = ("numeq", key, v)
        if f in st.facts:
            return [(st.facts[f], st)]
        s2 = st.fork()
        st.bounds[key] = (v, v)
        st.facts[f] = True
        s2.facts[f] = False
        if lo == v:
            s2.bounds[key] = (v + 1, hi)
        elif hi == v:
            s2.bounds[key] = (lo, v - 1)
        return [(True, st), (False, s2)]

    def eq(self, a, b, st, ident=False):
        a, b = self.canon(a, st), self.canon(b, st)
        if a == b and a[0] != "loopvar":
            return [(True, st)]
        if constlike(a) and not constlike(b):
            a, b = b, a
        if constlike(a) and constlike(b):
            if is_const(a) and is_const(b):
                return [(a[2] == b[2] and (not ident or type(a[2]) is type(b[2])), st)]
            if a[0] == "ext" and b[0] == "ext":
                if a[1] in ("sys.version_info",):
                    return self.fork_fact(("eq", a, b), st)
                if "." in a[1] and "." in b[1]:
                    return [(False, st)] if a[1][:1].islower() and a[1].split(".")[-1][:1].isupper() and b[1].split(".")[-1][:1].isupper() else self.fork_fact(("eq", a, b), st)
                return self.fork_fact(("eq", a, b), st)
            if a[0] == "ext" and is_const(b):
                if b == NONE:
                    return [(False, st)] if a[1].split(".")[-1][:1].isupper() else self.fork_fact(("eq", a, b), st)
                return self.fork_fact(("eq", a, b), st)
            return [(False, st)]
        if b == NONE:
            return self.isinst(a, [("ext", "NoneType")], st)
        if is_const(b) and b[1] == "bool" and self.typeof(a, st) == frozenset(["bool"]):
            return [(x == b[2], s) for x, s in self.truth(a, st)]
        if constlike(b) and not is_int_const(b):
            if is_const(b) and b[1] == "str":
                S = self.typeof(a, st)
                if b[2] == "" and S is not None and all(self.issub(c, "str") for c in S):
                    return [(not x, s) for x, s in self.truth(a, st)]
                if a[0] == "cat" and b[2] == "" and any(is_str_const(p) for p in a[1]):
                    return [(False, st)]
            return self.dom_split(a, frozenset([b]), st)
        if is_int_const(b):
            S = self.typeof(a, st)
            if a in st.cont or (S is not None and S and all(self.issub(c, "str") for c in S)):
                return [(False, st)]
            if a[0] == "lenof" and b == C(0):
                return [(not x, s) for x, s in self.truth(a[1], st)]
            if a[0] in ("lin", "idx", "lenof") or (a[0] == "call" and a[1] == "len") or S == frozenset(["int"]) or a[0] == "op" or self.nonneg(a, st):
                return self.num_eq(a, b, st)
            return self.dom_split(a, frozenset([b]), st)
        if a[0] == "lin" or b[0] == "lin" or (a[0] == "call" and a[1] == "len") or (b[0] == "call" and b[1] == "len"):
            return self.num_eq(a, b, st)
        # class-set disjointness
        S1, S2 = self.typeof(a, st), self.typeof(b, st)
        if S1 is not None and S2 is not None and not any(x.endswith("+") for x in S1 | S2):
            if not (S1 & S2) and not any(self.issub(x, "str") for x in S1 | S2):
                if ident or all(x in self.repo.classes for x in S1 | S2):
                    return [(False, st)]
        x, y = sorted([a, b], key=repr)
        return self.fork_fact(("eq", x, y), st)

    def dom_split(self, t, vals, st):
        """t in vals (constants)?"""
        d = st.dom.get(t)
        S = self.typeof(t, st)
        if S is not None and not any(x.endswith("+") for x in S):
            # constants whose class is impossible
            vals = frozenset(v for v in vals if not is_const(v) or (("None" if v[2] is None else v[1]) in S) or any(self.issub(c, v[1]) for c in S))
            if not vals:
                return [(False, st)]
        if d is None:
            d = ("notin", frozenset())
        if d[0] == "in":
            yes, no = d[1] & vals, d[1] - vals
            if not yes:
                return [(False, st)]
            if not no:
                return [(True, st)]
            s2 = st.fork()
            st.dom[t] = ("in", yes)
            s2.dom[t] = ("in", no)
            return [(True, st), (False, s2)]
        yes = vals - d[1]
        if not yes:
            return [(False, st)]
        s2 = st.fork()
        st.dom[t] = ("in", frozenset(yes))
        s2.dom[t] = ("notin", d[1] | vals)
        if NONE in vals:
            cur = s2.types.get(t)
            if cur is not None:
                s2.types[t] = cur - {"None"}
        return [(True, st), (False, s2)]

    def member(self, a, b, st, fr, node):
        b0 = b
        if b[0] in ("keys_of", "iter_of"):
            b = b[1]
        if b[0] == "order_of":
            b = b[2]
        vals = None
        if b[0] == "tup":
            vals = list(b[1])
        elif b in st.cont and all(i.mode == "item" and not i.loops and not i.conds for i in st.cont[b]) and b not in st.minus:
            vals = [i.key if st.ckind[b] == "dict" else i.val for i in st.cont[b]]
        elif b[0] == "glob":
            c = self.const_coll(b)
            if c is not None and len(c) <= 16:
                vals = [C(x) for x in c]
        elif b[0] == "c" and b[1] == "str" and is_str_const(a):
            return [(a[2] in b[2], st)]
        if vals is not None:
            if not vals:
                return [(False, st)]
            if constlike(a) and all(constlike(v) for v in vals):
                return [(a in vals, st)]
            if all(constlike(v) for v in vals):
                if len(vals) == 1 and vals[0] == NONE:
                    return self.eq(a, NONE, st)
                return self.dom_split(a, frozenset(vals), st)
            if a in vals:
                return [(True, st)]
            if b[0] == "tup" and len(vals) <= 4:
                cur, done = [st], []
                for v in vals:
                    nxt = []
                    for s in cur:
                        for r, s2 in self.eq(a, v, s):
                            (done.append((True, s2)) if r else nxt.append(s2))
                    cur = nxt
                return done + [(False, s) for s in cur]
        if b in st.cont:
            if not st.cont[b]:
                return [(False, st)]
            if b not in st.minus and any(i.mode == "item" and not i.loops and not i.conds and (i.key if st.ckind[b] == "dict" else i.val) == a for i in st.cont[b]):
                return [(True, st)]
            return self.fork_fact(("in", a, b), st)
        # `x in graph` style on repo objects is left symbolic
        return self.fork_fact(("in", a, b), st)

    def less_known(self, v, S, st):
        """The classes of S that agree with what was found out about v before its type was declared."""
        out = set(S)
        for k, val in st.facts.items():
            if k[0] == "isinst" and k[1] == v and len(k) == 3 and isinstance(k[2], str):
                out = {c for c in out if self.issub(c, k[2]) is not (not val)}
        return frozenset(out) or S

    def isinst(self, v, classes, st):
        names = []
        for c in classes:
            if c[0] in ("tup",):
                return self.isinst(v, [x for y in classes for x in (y[1] if y[0] in ("tup", "union") else [y])], st)
            if c[0] == "union":
                return self.isinst(v, [x for y in classes for x in (y[1] if y[0] in ("tup", "union") else [y])], st)
            if c == NONE:
                names.append("None")
            elif c[0] in ("cls", "ext"):
                names.append("None" if c[1] in ("NoneType", "types.NoneType") else c[1])
            elif c[0] == "type" and c[1] == NONE:
                names.append("None")
            else:
                return self.fork_fact(("isinst", v, c), st)
        v = self.canon(v, st)
        if v[0] == "exc":
            return [(any(self.exc_sub(v[1], n) for n in names), st)]
        if constlike(v) and v[0] != "c":
            if names == ["None"]:
                if v[0] == "ext" and not v[1].split(".")[-1][:1].isupper():
                    return self.fork_fact(("isinst", v, "None"), st)
                return [(False, st)]
            if v[0] == "ext":
                cur, done = [st], []
                for nm in names:
                    nxt = []
                    for s in cur:
                        for b, s2 in self.fork_fact(("isinst", v, nm), s):
                            (done.append((True, s2)) if b else nxt.append(s2))
                    cur = nxt
                return done + [(False, s) for s in cur]
        S = self.typeof(v, st)
        if S is None:
            cur, done = [st], []
            for nm in names:
                nxt = []
                for s in cur:
                    implied = None
                    if nm == "None":
                        if self.graph_part(v):
                            implied = False
                        if any(k[0] == "isinst" and k[1] == v and k[2] != "None" and val for k, val in s.facts.items() if len(k) == 3 and isinstance(k[2], str)):
                            implied = False
                        if s.facts.get(("truth", v)) is True:
                            implied = False
                        d = s.dom.get(v)
                        if d is not None and ((d[0] == "in" and NONE not in d[1]) or (d[0] == "notin" and NONE in d[1])):
                            implied = False
                    else:
                        if s.facts.get(("isinst", v, "None")) is True:
                            implied = False
                        else:
                            implied = self.isinst_implied(v, nm, s)
                    if implied is not None:
                        (done.append((True, s)) if implied else nxt.append(s))
                        continue
                    for b, s2 in self.fork_fact(("isinst", v, nm), s):
                        (done.append((True, s2)) if b else nxt.append(s2))
                cur = nxt
            return done + [(False, s) for s in cur]
        yes, no, maybe = set(), set(), set()
        for c in S:
            r = [self.issub(c, nm) for nm in names]
            if any(x is True for x in r):
                yes.add(c)
            elif all(x is False for x in r):
                no.add(c)
            else:
                maybe.add(c)
        outs = []
        if not maybe:
            if yes and no:
                s2 = st.fork()
                st.types[v] = frozenset(yes)
                s2.types[v] = frozenset(no)
                return [(True, st), (False, s2)]
            return [(bool(yes), st)]
        # undecidable members: split per fact
        cur, done = [st], []
        for nm in names:
            nxt = []
            for s in cur:
                imp = self.isinst_implied(v, nm, s)
                if imp is not None:
                    (done.append((True, s)) if imp else nxt.append(s))
                    continue
                for b, s2 in self.fork_fact(("isinst", v, nm), s):
                    (done.append((True, s2)) if b else nxt.append(s2))
            cur = nxt
        for b, s in done:
            s.types[v] = frozenset(yes | maybe)
            outs.append((True, s))
        for s in cur:
            s.types[v] = frozenset(no | maybe)
            outs.append((False, s))
        return outs

    def graph_part(self, v):
        """Is v an element a graph query yields (a node, an edge end, an edge's attributes)?"""
        if v[0] == "item" and v[1][0] == "elem":
            v = v[1]
        return v[0] == "elem" and v[1][0] == "call" and v[1][1].lstrip(".") in ("outgoing", "incoming", "iter_graph", "nodes", "roots", "edges")

    def isinst_implied(self, v, nm, st):
        for k, val in st.facts.items():
            if k[0] == "isinst" and len(k) == 3 and k[1] == v and isinstance(k[2], str):
                if val and k[2] != "None":
                    r = self.issub(k[2], nm)
                    if r is True:
                        return True
                    a, b = self.real_class(k[2]), self.real_class(nm)
                    if a and b and a.__module__ in ("ast", "_ast") and b.__module__ in ("ast", "_ast"):
                        if not issubclass(b, a):
                            return False
                    if k[2] in self.repo.classes and nm in self.repo.classes and not set(self.repo.subclasses(k[2])) & set(self.repo.subclasses(nm)):
                        return False
                elif not val and k[2] != "None":
                    if self.issub(nm, k[2]) is True:
                        return False
        return None

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f.cls is None and f.parent is not None:
                f = f.parent
            p = f.fi.params()[0]
            return [(("super", st.env[(f.fid, p)], f.cls.name), st)]

        def f(fv, s):
            # quantifiers and generators over comprehensions keep path sensitivity
            if fv in (("ext", "any"), ("ext", "all")) and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
                return self.quantifier(fv[1], n.args[0], s, fr)
            if fv == ("ext", "next") and n.args and isinstance(n.args[0], ast.GeneratorExp):
                return self.next_gen(n, s, fr)
            pos, kws = [], []
            exprs = []
            for a in n.args:
                exprs.append(a)
            for k in n.keywords:
                exprs.append(k.value)

            def g(vs, s2):
                args = list(vs[: len(n.args)])
                flat = []
                for a in args:
                    if a[0] == "star":
                        if a[1][0] == "tup":
                            flat.extend(a[1][1])
                        elif a[1] in s2.cont and all(i.mode == "item" and not i.loops and not i.conds for i in s2.cont[a[1]]):
                            flat.extend(i.val for i in s2.cont[a[1]])
                        else:
                            flat.append(a)
                    else:
                        flat.append(a)
                kw = []
                for k, v in zip(n.keywords, vs[len(n.args):]):
                    if k.arg is None:
                        if v in s2.cont and all(i.mode == "item" and i.key and is_str_const(i.key) for i in s2.cont[v]):
                            kw.extend((i.key[2], i.val) for i in s2.cont[v])
                        else:
                            kw.append(("**", v))
                    else:
                        kw.append((k.arg, v))
                return self.call(fv, flat, kw, s2, fr, n)
            return self.bind(self.evals(exprs, s, fr), g)
        return self.bind(self.eval(n.func, st, fr), f)

    def quantifier(self, which, comp, st, fr):
        want = which == "any"
        decided = []

        def body(s, cfr):
            res = []
            for b, s2 in self.cond(comp.elt, s, cfr):
                if isinstance(b, Abr):
                    res.append((b.c, s2))
                elif b == want:
                    res.append((("qhit",), s2))
                else:
                    res.append((None, s2))
            return res
        outs = []
        n0 = len(st.events)
        for c, s in self.comp_drive(comp, st, fr, body):
            quantified(s, n0)
            if c is None:
                outs.append((C(not want), s))
            elif c[0] == "qhit":
                outs.append((C(want), s))
            else:
                outs.append((Abr(c), s))
        return outs

    def next_gen(self, n, st, fr):
        comp = n.args[0]

        def body(s, cfr):
            return [(v.c if isinstance(v, Abr) else ("nhit", v), s2) for v, s2 in self.eval(comp.elt, s, cfr)]
        outs = []
        for c, s in self.comp_drive(comp, st, fr, body):
            if c is None:
                if len(n.args) > 1:
                    outs.extend(self.eval(n.args[1], s, fr))
                else:
                    outs.append((Abr(("raise", ("exc", "StopIteration", self.pos(fr, n)))), s))
            elif c[0] == "nhit":
                outs.append((c[1], s))
            else:
                outs.append((Abr(c), s))
        return outs

    def call(self, fv, args, kw, st, fr, node):
        k = fv[0]
        if k == "func":
            return self.call_func(self.fi_by_qual(fv[1]), None, args, kw, st, fr, node)
        if k == "bm":
            return self.call_func(self.fi_by_qual(fv[2]), fv[1], args, kw, st, fr, node)
        if k == "partial":
            return self.call(fv[1], list(fv[2]) + args, list(fv[3]) + kw, st, fr, node)
        if k == "clo":
            return self.call_closure(fv, args, kw, st, node)
        if k == "cls":
            return self.construct(fv[1], args, kw, st, fr, node)
        if k == "dcinit":
            ci = self.repo.classes[fv[2]]
            fields = self.repo.dc_fields(ci)
            vals = dict(zip(fields, args))
            vals.update(dict(kw))
            for f, v in vals.items():
                st.heap[(fv[1], f)] = v
            return [(NONE, st)]
        if k == "bmext":
            if fv[2] == "__init__":
                self.event(st, "super", "__init__", fv[1], tuple(args), tuple(kw), NONE, self.pos(fr, node))
                return [(NONE, st)]
            return self.ext_event(st, "." + fv[2], fv[1], args, kw, fr, node)
        if k == "ext":
            return self.call_ext(fv[1], args, kw, st, fr, node)
        if k == "attr":
            return self.call_method(fv[1], fv[2], args, kw, st, fr, node)
        if k == "glob":
            return self.ext_event(st, fv[1].split(":")[-1], None, args, kw, fr, node)
        S = self.typeof(fv, st)
        if S and len(S) == 1 and next(iter(S)) in self.repo.classes:
            ci = self.repo.classes[next(iter(S))]
            m = self.repo.find_method(ci, "__call__")
            if m is not None:
                return self.call_func(m, fv, args, kw, st, fr, node)
        # unknown callable
        return self.ext_event(st, "<dyn>", fv, args, kw, fr, node, kind="dyn")

    def fi_by_qual(self, qual):
        mod, _, path = qual.partition(":")
        m = self.repo.modules[mod]
        parts = path.split(".")
        b = m.names.get(parts[0])
        if b[0] == "func":
            return b[1]
        return b[1].methods[parts[1]]

    def call_closure(self, fv, args, kw, st, node):
        n, cfr = self._closures[fv[1]]
        fr2 = self.new_frame(cfr.fi, cfr.module, cfr.cls, parent=cfr, name=fv[2])
        binding = self.bind_params(n.args, args, kw, st, cfr)
        if binding is None:
            return self.ext_event(st, "<closure>", fv, args, kw, cfr, node, kind="dyn")
        for b, s in binding:
            pass
        outs = []
        for b, s in binding:
            for p, v in b.items():
                s.env[(fr2.fid, p)] = v
            if isinstance(n, ast.Lambda):
                outs.extend(self.eval(n.body, s, fr2))
            elif has_yield(n):
                fi = FuncInfo(cfr.module, n)
                fi.qual = f"{cfr.fi.qual if cfr.fi else cfr.module.name}.<locals>.{n.name}"
                key = (id(n), cfr.fid)
                Engine._gens[key] = (fi, cfr)
                outs.append((("gen", fi.qual, tuple(sorted(b.items())), key), s))
            else:
                key = ("clo", id(n))
                if key in self.stack:
                    outs.extend(self.ext_event(s, fv[2], None, args, kw, cfr, node, kind="recurse"))
                    continue
                self.stack.append(key)
                try:
                    for c, s2 in self.block(n.body, s, fr2):
                        outs.append((NONE, s2) if c is None else (c[1], s2) if c[0] == "ret" else (Abr(c), s2))
                finally:
                    self.stack.pop()
        return outs

    def bind_params(self, a, args, kw, st, dfr):
        """[(binding, st)] or None when it cannot be bound."""
        names = [p.arg for p in a.posonlyargs + a.args]
        b = {}
        args = list(args)
        stars = [x for x in args if x[0] == "star"]
        if len(stars) == 1 and a.vararg is None and not a.defaults and not any(k == "**" for k, _ in kw):
            # the number of parameters says how many arguments there are
            n = len(names) - (len(args) - 1) - sum(1 for k, _ in kw if k in names)
            at = args.index(stars[0])
            args[at:at + 1] = [self.canon(("item", stars[0][1], C(j)), st) for j in range(n)]
            stars = []
        if stars:
            if a.vararg is not None and len(args) - 1 == len(names) and args[-1][0] == "star":
                for nme, v in zip(names, args):
                    b[nme] = v
                b[a.vararg.arg] = args[-1][1]
            else:
                return None
        else:
            for nme, v in zip(names, args):
                b[nme] = v
            extra = args[len(names):]
            if a.vararg is not None:
                b[a.vararg.arg] = ("tup", tuple(extra))
            elif extra:
                return None
        kwnames = [p.arg for p in a.kwonlyargs]
        rest = []
        for k, v in kw:
            if k == "**":
                if a.kwarg is not None:
                    b[a.kwarg.arg] = v
                else:
                    return None
            elif k in names or k in kwnames:
                b[k] = v
            else:
                rest.append((k, v))
        if a.kwarg is not None:
            if a.kwarg.arg not in b:
                o = self.new_obj(st, "dict", [Item("item", v, C(k)) for k, v in rest])
                b[a.kwarg.arg] = o
        elif rest:
            return None
        todo = []
        for p, d in zip(reversed(a.posonlyargs + a.args), reversed(a.defaults)):
            if p.arg not in b:
                todo.append((p.arg, d))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in b and d is not None:
                todo.append((p.arg, d))
        outs = [(b, st)]
        for nm, d in todo:
            nxt = []
            for bb, s in outs:
                for v, s2 in self.eval(d, s, dfr):
                    if isinstance(v, Abr):
                        continue
                    x = dict(bb)
                    x[nm] = v
                    nxt.append((x, s2))
            outs = nxt
        for p in names + kwnames:
            if any(p not in bb for bb, _ in outs):
                return None
        return outs

    def short(self, fi):
        return fi.qual.split(":", 1)[1]

    def is_opaque(self, fi):
        if self.short(fi) in self.policy.opaque or fi.name in self.policy.opaque:
            return True
        if self.policy.opaque_pred and self.policy.opaque_pred(fi):
            return True
        return False

    def call_func(self, fi, recv, args, kw, st, fr, node):
        a = fi.node.args
        allargs = ([recv] if recv is not None and not fi.is_static else []) + list(args)
        if recv is None and fi.cls is not None and not fi.is_static and not fi.is_classmethod and not allargs:
            pass
        dfr = self.new_frame(fi, fi.module, fi.cls, name=fi.name)
        bound = self.bind_params(a, allargs, kw, st, dfr)
        if bound is None:
            return self.opaque_call(fi, None, allargs, kw, st, fr, node)
        outs = []
        for b, s in bound:
            recursive = self.stack.count(fi.qual) >= 1
            if self.is_opaque(fi) or (recursive and not fi.is_gen) or len(self.stack) > 14:
                outs.extend(self.opaque_call(fi, b, allargs, kw, s, fr, node, recursive=recursive and not self.is_opaque(fi)))
                continue
            if fi.is_gen:
                key = (id(fi.node), 0)
                Engine._gens[key] = (fi, None)
                outs.append((("gen", fi.qual, tuple(sorted(b.items())), key), s))
                continue
            fr2 = self.new_frame(fi, fi.module, fi.cls, name=fi.name)
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                v = b.get(p.arg)
                if v is None:
                    continue
                s.env[(fr2.fid, p.arg)] = v
                if p.annotation is not None and self.typeof(v, s) is None and v[0] in ("call", "attr", "item", "elem", "popped", "loopvar"):
                    S = self.ann_types(p.annotation, fi.module)
                    if S is not None:
                        s.types[v] = self.less_known(v, S, s)
            for p in (a.vararg, a.kwarg):
                if p is not None and p.arg in b:
                    s.env[(fr2.fid, p.arg)] = b[p.arg]
            self.stack.append(fi.qual)
            self.inlined.add(fi.qual)
            try:
                rs = self.block(fi.node.body, s, fr2)
            finally:
                self.stack.pop()
            for c, s2 in rs:
                for kk in [kk for kk in s2.env if kk[0] == fr2.fid]:
                    # keep frames captured by closures only
                    if not any(cf.fid == fr2.fid for _n, cf in self._closures.values()):
                        del s2.env[kk]
                outs.append((NONE, s2) if c is None else (c[1], s2) if c[0] == "ret" else (Abr(c), s2))
        return outs

    def opaque_call(self, fi, b, allargs, kw, st, fr, node, recursive=False):
        name = self.short(fi)
        if b is not None:
            order = fi.params() + [p.arg for p in fi.node.args.kwonlyargs]
            args = {p: b[p] for p in order if p in b}
            for p in (fi.node.args.vararg, fi.node.args.kwarg):
                if p is not None and p.arg in b:
                    args[p.arg] = b[p.arg]
            targs, tkw = tuple(args.values()), ()
        else:
            args, targs, tkw = tuple(allargs), tuple(allargs), tuple(kw)
        key = (name, targs, tkw)
        n = st.occ.get(key, 0)
        st.occ[key] = n + 1
        t = ("call", name, targs, tkw, n)
        S = self.ann_types(fi.node.returns, fi.module)
        if S is not None and not fi.is_gen:
            st.types.setdefault(t, S)
            t = self.canon(t, st)
        elif fi.is_gen:
            st.types.setdefault(t, frozenset(["generator"]))
        if name in self.policy.watch:
            tkw = tuple(tkw) + (("watched", self.policy.watch[name](self, st)),)
        self.event(st, "recurse" if recursive else "call", name, None, args, tkw, t, self.pos(fr, node))
        if not self.inert(fi):
            st.epoch += 1
            self.smear(st, fr, node, targs)
        outs = []
        for exc in self.raise_candidates(name, is_repo=True):
            s2 = st.fork()
            outs.append((Abr(("raise", ("exc", exc, (name, len(st.events) - 1)))), s2))
        outs.append((t, st))
        return outs

    def inert(self, fi):
        """Does a function do nothing but compute with strings? (It changes nothing then.)"""
        cache = self.__dict__.setdefault("_inert", {})
        if fi not in cache:
            ok = not fi.is_gen and fi.cls is None
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Call):
                    f = x.func
                    ok &= isinstance(f, ast.Attribute) and f.attr in INERT_METHODS or isinstance(f, ast.Name) and f.id in INERT_NAMES
                elif isinstance(x, (ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.With, ast.Delete, ast.Yield, ast.YieldFrom, ast.Await)):
                    ok = False
                elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
                    ok = False
            cache[fi] = ok
        return cache[fi]

    def smear(self, st, fr, node, targs):
        """An opaque call may push work: every list hanging off a graph object gets an unknown segment."""
        for (b, a), v in list(st.heap.items()):
            if v in st.cont and a != "" and self.is_graph(b, st):
                st.cont[v] = st.cont[v] + (Item("seg", ("pushed", len(st.events) - 1), None, st.loops),)
                st.cver[v] = (len(st.events), "smear")

    def is_graph(self, b, st):
        S = self.typeof(b, st)
        return bool(S) and any(c in self.repo.subclasses("ModuleGraph") for c in S)

    def raise_candidates(self, name, is_repo=False, dyn=False):
        cands = self.policy.raises.get(name)
        if cands is None:
            if dyn:
                cands = self.policy.dyn_raises or ("Exception",)
            else:
                cands = self.policy.raise_all if isinstance(self.policy.raise_all, tuple) else ("Exception",)
        if self.policy.raise_all or name in self.policy.raise_only:
            return tuple(cands)
        out = []
        for c in cands:
            caught = False
            for h in self.handlers:
                for x in h:
                    if self.exc_sub(c, x):
                        caught = True
            if caught:
                out.append(c)
        return tuple(out)

    def ext_event(self, st, fn, recv, args, kw, fr, node, kind="call", types=None, pure=False):
        if recv is not None and fn.startswith("."):
            targs = (recv,) + tuple(args)
        else:
            targs = (() if recv is None else (recv,)) + tuple(args)
        key = (fn, targs, tuple(kw))
        n = st.occ.get(key, 0)
        st.occ[key] = n + 1
        t = ("call", fn, targs, tuple(kw), n)
        if types:
            st.types.setdefault(t, types)
        self.event(st, kind, fn, recv, tuple(args), tuple(kw), t, self.pos(fr, node))
        outs = []
        for exc in self.raise_candidates(fn, dyn=kind == "dyn"):
            s2 = st.fork()
            outs.append((Abr(("raise", ("exc", exc, (fn, len(st.events) - 1)))), s2))
        if kind == "dyn" or any(self.is_graph(a, st) for a in args):
            st.epoch += 1
            self.smear(st, fr, node, targs)
        outs.append((t, st))
        return outs

    # -- constructors -----------------------------------------------------------
    def construct(self, cname, args, kw, st, fr, node):
        ci = self.repo.classes[cname]
        mro = self.repo.mro(ci)
        if any(e.split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for m in mro for e in m.ext_bases):
            t = ("call", cname, tuple(args), tuple(kw), 0)
            st.types[t] = frozenset([cname])
            return [(t, st)]
        if any(self.issub(cname, x) for x in ("str", "int", "tuple")) and "__init__" not in ci.methods and "__new__" not in ci.methods:
            self.nobj += 1
            t = ("strobj", cname, tuple(args), self.nobj)
            st.types[t] = frozenset([cname])
            return [(t, st)]
        init = None
        for c in mro:
            if "__init__" in c.methods:
                init = c.methods["__init__"]
                break
            if c.dataclass and c.dc_init:
                break
        fields = self.repo.dc_fields(ci)
        if init is None and any(c.dataclass for c in mro):
            vals, names = {}, list(fields)
            if len(args) > len(names) or any(a[0] == "star" for a in args):
                return self.ext_event(st, cname, None, args, kw, fr, node)
            for f, v in zip(names, args):
                vals[f] = v
            for k, v in kw:
                vals[k] = v
            if self.policy.none_deref and "**" not in vals and (any(f not in vals and fields[f] is None for f in names) or any(k not in fields for k in vals)):
                return [(Abr(("raise", ("exc", "TypeError", ("none", self.pos(fr, node))))), st)]
            outs = [(vals, st)]
            for f in names:
                if f not in vals and fields[f] is not None:
                    nxt = []
                    for vv, s in outs:
                        d = fields[f]
                        if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("field"):
                            v = None
                            for kk in d.keywords:
                                if kk.arg == "default_factory":
                                    fn = ast.unparse(kk.value)
                                    v = self.new_obj(s, fn if fn in ("list", "set", "dict") else "list", ())
                                elif kk.arg == "default":
                                    v = self.eval(kk.value, s, self.new_frame(None, ci.module, None))[0][0]
                            x = dict(vv)
                            x[f] = v if v is not None else ("sym", f"default:{f}")
                            nxt.append((x, s))
                        else:
                            v = self.eval(d, s, self.new_frame(None, ci.module, None))[0][0]
                            x = dict(vv)
                            x[f] = v
                            nxt.append((x, s))
                    outs = nxt
            res = []
            for vv, s in outs:
                if ci.frozen:
                    res.append((("rec", cname, tuple((f, vv[f]) for f in names if f in vv)), s))
                else:
                    o = self.new_node(s, cname)
                    for f, v in vv.items():
                        s.heap[(o, f)] = v
                    self.event(s, "new", cname, o, dict(vv), (), o, self.pos(fr, node))
                    pi = self.repo.find_method(ci, "__post_init__")
                    if pi is not None:
                        for r, s2 in self.call_func(pi, o, [], [], s, fr, node):
                            res.append((r if isinstance(r, Abr) else o, s2))
                    else:
                        res.append((o, s))
            return res
        o = self.new_node(st, cname)
        e = self.event(st, "new", cname, o, {}, (), o, self.pos(fr, node))
        if init is None:
            return [(o, st)]
        return [(r if isinstance(r, Abr) else o, s) for r, s in self.call_func(init, o, args, kw, st, fr, node)]

    def new_node(self, st, cname):
        self.nobj += 1
        return ("obj", self.nobj, cname)

    # -- external functions -----------------------------------------------------
    def call_ext(self, d, args, kw, st, fr, node):
        kwd = dict(kw)
        if d in NONE_REFUSED and len(args) == 1 and self.policy.none_deref and args[0][0] != "star" and self.known_none(args[0], st):
            return [(Abr(("raise", ("exc", "TypeError", ("none", self.pos(fr, node))))), st)]
        if d in ("typing.cast", "cast") and len(args) == 2:
            v = args[1]
            if self.typeof(v, st) is None and isinstance(node, ast.Call) and not is_const(v) and v[0] not in ("obj", "rec", "tup"):
                S = self.ann_types(node.args[0], fr.module)
                if S is not None:
                    st.types[v] = self.less_known(v, S, st)
            return [(v, st)]
        if d == "isinstance":
            return [(b if isinstance(b, Abr) else C(b), s) for b, s in self.isinst(args[0], [args[1]] if args[1][0] not in ("tup", "union") else list(args[1][1]), st)]
        if d == "bool" and len(args) == 1:
            return [(C(b), s) for b, s in self.truth(args[0], st)]
        if d == "len" and len(args) == 1:
            v = args[0]
            if is_const(v) or v[0] == "tup":
                return [(C(len(v[2]) if is_const(v) else len(v[1])), st)]
            if v in st.cont:
                its = st.cont[v]
                if all(i.mode == "item" and not i.loops and not i.conds for i in its) and st.ckind[v] in ("list", "deque", "tuple"):
                    return [(C(len(its)), st)]
                return [(("lenof", v, tuple(i.sig() for i in its)), st)]
            return [(("call", "len", (v,), (), 0), st)]
        if d == "str":
            if not args:
                return [(C(""), st)]
            if len(args) == 1:
                return [(self.to_str(args[0], st), st)]
        if d == "type" and len(args) == 1:
            S = self.typeof(args[0], st)
            if S is not None and len(S) == 1:
                c = next(iter(S))
                if c in self.repo.classes:
                    return [(("cls", c), st)]
            return [(("type", args[0]), st)]
        if d in ("getattr", "setattr", "hasattr") and len(args) >= 2 and is_str_const(args[1]):
            if d == "getattr":
                outs = self.getattr(args[0], args[1][2], st, fr, node)
                if len(args) == 3:
                    res = []
                    for v, s in outs:
                        if isinstance(v, Abr) or v[0] != "attr":
                            res.append((v, s))
                            continue
                        for b, s2 in self.fork_fact(("hasattr", args[0], args[1][2]), s):
                            res.append((v if b else args[2], s2))
                    return res
                return outs
            if d == "setattr":
                st.heap[(args[0], args[1][2])] = args[2]
                self.event(st, "setattr", args[1][2], args[0], (args[2],), (), NONE, self.pos(fr, node))
                return [(NONE, st)]
            return [(C(b), s) for b, s in self.fork_fact(("hasattr", args[0], args[1][2]), st)]
        if d in ("list", "tuple", "set", "frozenset", "dict", "collections.deque", "collections.OrderedDict", "collections.defaultdict", "sorted", "reversed"):
            kind = {"collections.deque": "deque", "collections.OrderedDict": "dict", "collections.defaultdict": "dict"}.get(d, d)
            if d == "collections.defaultdict":
                return [(self.new_obj(st, "dict", ()), st)]
            if d == "dict":
                items = [Item("item", v, C(k)) for k, v in kw if k != "**"]
                for a in args:
                    items = self.as_items(a, st) + items
                return [(self.new_obj(st, "dict", items), st)]
            if not args:
                return [(self.new_obj(st, kind, ()) if kind != "tuple" else ("tup", ()), st)]
            v = args[0]
            if d == "reversed":
                return [(("order_of", "reversed", v), st)]
            if d == "sorted":
                ky = kwd.get("key")
                return [(("order_of", ("sorted", ky, kwd.get("reverse")), v), st)]
            if v[0] == "order_of":
                v = v
            if v[0] == "tup" and kind == "tuple":
                return [(v, st)]
            if v[0] in ("gen", "map_of", "filter_of", "enum_of", "zip_of", "items_of", "values_of", "chain_of"):
                return self.collect(v, kind, st, fr, node)
            o = self.new_obj(st, kind, self.as_items(v, st))
            if v in st.minus:
                st.minus[o] = st.minus[v]
            return [(o, st)]
        if d == "iter" and len(args) == 1:
            return [(args[0], st)]
        if d == "enumerate":
            start = kwd.get("start") or (args[1] if len(args) > 1 else None)
            return [(("enum_of", args[0], start), st)]
        if d == "zip":
            return [(("zip_of", tuple(args)), st)]
        if d == "map" and len(args) == 2:
            return [(("map_of", args[0], args[1]), st)]
        if d == "filter" and len(args) == 2:
            return [(("filter_of", args[0], args[1]), st)]
        if d == "itertools.chain":
            return [(("chain_of", tuple(args)), st)]
        if d in ("any", "all") and len(args) == 1:
            want = d == "any"

            def body(e, s):
                return [((("qhit",) if b == want else None), s2) for b, s2 in self.truth(e, s)]
            n0, outs = len(st.events), []
            for c, s in self.iterate(args[0], st, fr, node, body):
                quantified(s, n0)
                outs.append((C(want) if c and c[0] == "qhit" else C(not want) if c is None else Abr(c), s))
            return outs
        if d == "next" and args:
            if args[0][0] in ("gen",) or args[0] in st.cont:
                outs = []
                for c, s in self.iterate(args[0], st, fr, node, lambda e, s: [(("nhit", e), s)]):
                    if c is None:
                        outs.append((args[1], s) if len(args) > 1 else (Abr(("raise", ("exc", "StopIteration", self.pos(fr, node)))), s))
                    elif c[0] == "nhit":
                        outs.append((c[1], s))
                    else:
                        outs.append((Abr(c), s))
                return outs
        if d in ("functools.partial",) and args:
            return [(("partial", args[0], tuple(args[1:]), tuple(kw)), st)]
        if d in ("min", "max", "abs", "int", "float") and all(is_const(a) for a in args) and not kw:
            try:
                return [(C(getattr(builtins, d)(*[a[2] for a in args])), st)]
            except Exception:
                pass
        if d == "os.fspath" and len(args) == 1:
            S = self.typeof(args[0], st)
            if S is not None and all(self.issub(c, "str") for c in S) or args[0][:2] == ("call", "os.fspath"):
                return [(args[0], st)]
        if d in ("sys.exit", "exit"):
            return [(Abr(("raise", ("exc", "SystemExit", self.pos(fr, node), tuple(args)))), st)]
        if d == "operator.attrgetter" or d == "operator.itemgetter":
            return [(("call", d, tuple(args), tuple(kw), 0), st)]
        if d == "print":
            f = kwd.get("file")
            self.event(st, "print", "print", f, tuple(args), tuple(kw), NONE, self.pos(fr, node))
            return [(NONE, st)]
        if d == "sys.stdout.write" or d == "sys.stderr.write":
            self.event(st, "write", ".write", ("ext", d[:-6]), tuple(args), (), NONE, self.pos(fr, node))
            return [(NONE, st)]
        if d == "super":
            raise AnalysisBroken("two-argument super() is not supported")
        rc = getattr(builtins, d, None)
        if isinstance(rc, type) and issubclass(rc, BaseException):
            return [(("exc", d, (self.pos(fr, node), tuple(self.deep(a, st) for a in args))), st)]
        # methods of external objects: dict/list operations on e.g. sys.modules
        if "." in d:
            base, _, meth = d.rpartition(".")
            if base in ("sys.modules", "sys.path", "sys.meta_path", "sys.path_hooks", "sys.path_importer_cache", "sys.stdlib_module_names", "os.environ"):
                return self.call_method(("ext", base), meth, args, kw, st, fr, node)
        if d.split(".")[-1] in ("register",) and d.startswith("importlib.abc"):
            self.event(st, "call", d, None, tuple(args), tuple(kw), NONE, self.pos(fr, node))
            return [(NONE, st)]
        if d in PURE_EXT:
            t = ("call", d, tuple(args), tuple(kw), 0)
            outs = []
            for exc in (self.raise_candidates(d) if d in self.policy.raises else ()):
                s2 = st.fork()
                self.event(s2, "call", d, None, tuple(args), tuple(kw), t, self.pos(fr, node))
                outs.append((Abr(("raise", ("exc", exc, (d, len(s2.events) - 1)))), s2))
            return outs + [(self.canon(t, st), st)]
        return self.ext_event(st, d, None, args, kw, fr, node, types=EXT_TYPES.get(d))

    def collect(self, it, kind, st, fr, node):
        """list(generator): run it, gathering what it produces (per path)."""
        o = self.new_obj(st, kind if kind != "tuple" else "list", ())

        def body(e, s):
            s.cont[o] = s.cont[o] + (Item("item", e, None, tuple(s.loops[len(st.loops):]), ()),)
            return [(None, s)]
        return [(o if c is None else Abr(c), s) for c, s in self.iterate(it, st.fork(), fr, node, body)]

    # -- methods of opaque or container values -----------------------------------
    def call_method(self, b, name, args, kw, st, fr, node):
        if b in st.cont:
            r = self.container_method(b, name, args, kw, st, fr, node)
            if r is not None:
                return r
        if b[0] == "tup" and name in ("index", "count", "copy"):
            return [(("m", name, b, tuple(args)), st)]
        if b[0] == "elem" and name in () :
            pass
        # graph base class
        if self.is_graph(b, st) or (b[0] == "super"):
            sig = GRAPH_SIGS.get(name)
            argd = {}
            if sig:
                for p, v in zip(sig, args):
                    argd[p] = v
                argd.update({k: v for k, v in kw})
            else:
                argd = {str(i): v for i, v in enumerate(args)}
                argd.update(dict(kw))
            if name in GRAPH_QUERY:
                targs = tuple(argd.values())
                if name == "find_node" and targs:
                    v = targs[0]
                    S = self.typeof(v, st)
                    if S is not None and S and all(c in self.repo.subclasses("BaseNode") for c in S):
                        nm = self.getattr(v, "name", st, fr, node)[0][0]
                        targs = (nm,)
                t = ("call", name, (b,) + targs, (), st.epoch if name in ("find_node",) else 0)
                if name == "find_node":
                    st.types.setdefault(t, self.repo.subclasses("BaseNode") | self.repo.subclasses("PyPIDistribution") | {"None"})
                self.event(st, "query", name, b, argd, (), t, self.pos(fr, node))
                return [(self.canon(t, st), st)]
            t = NONE if name in ("add_node", "add_root", "add_edge") else ("call", "." + name, (b,) + tuple(args), tuple(kw), st.occ.get(("g", name), 0))
            self.event(st, "graph", name, b, argd, (), t, self.pos(fr, node))
            st.epoch += 1
            outs = []
            if self.policy.raise_all:
                for exc in self.raise_candidates("." + name):
                    outs.append((Abr(("raise", ("exc", exc, (name, len(st.events) - 1)))), st.fork()))
            return outs + [(t, st)]
        S = self.typeof(b, st)
        strish = S is not None and S and all(self.issub(c, "str") or c == "bytes" for c in S)
        if name == "join" and (strish or is_str_const(b)):
            return [(self.join(b, args[0], st), st)]
        if name == "format" and is_str_const(b):
            r = self.format(b[2], args, kw, st)
            if r is not None:
                return [(r, st)]
        if is_const(b) and all(is_const(a) for a in args) and not kw and name in PURE_METHODS and b[1] == "str":
            try:
                r = getattr(b[2], name)(*[a[2] for a in args])
                if isinstance(r, (tuple,)):
                    return [(("tup", tuple(C(x) for x in r)), st)]
                if isinstance(r, list):
                    return [(self.new_obj(st, "list", [Item("item", C(x)) for x in r]), st)]
                return [(C(r), st)]
            except Exception:
                pass
        if name in ("startswith", "endswith") and args and (is_const(args[0]) or args[0][0] == "tup"):
            # s.startswith(("a","b")): split per alternative
            alts = args[0][1] if args[0][0] == "tup" else (args[0],)
            cur, done = [st], []
            for a in alts:
                nxt = []
                for s in cur:
                    r = self.affix(b, name, a, s)
                    for bb, s2 in r:
                        (done.append((TRUE, s2)) if bb else nxt.append(s2))
                cur = nxt
            return done + [(FALSE, s) for s in cur]
        if name in ("items", "values", "keys") and not args and not strish:
            return [((name + "_of", b), st)]
        if strish and name in PURE_METHODS:
            t = ("m", name, b, tuple(args))
            if name in ("lstrip", "rstrip", "strip", "replace", "lower", "upper", "removesuffix", "removeprefix", "title"):
                st.types.setdefault(t, frozenset(["str"]))
            elif name in ("isidentifier", "startswith", "endswith", "isdigit"):
                st.types.setdefault(t, frozenset(["bool"]))
            elif name in ("find", "rfind", "index", "count", "rindex"):
                st.types.setdefault(t, frozenset(["int"]))
            elif name in ("rpartition", "partition"):
                for i in range(3):
                    st.types.setdefault(("item", t, C(i)), frozenset(["str"]))
            return [(self.canon(t, st), st)]
        if not strish:
            r = self.collection_method(b, name, args, kw, st, fr, node)
            if r is not None:
                return r
        if name in ("copy",) and not args:
            return [(self.new_obj(st, "list", [Item("seg", b)]), st)]
        if name in PURE_METHODS:
            t = ("m", name, b, tuple(args) + tuple(v for _, v in kw))
            if name in ("isidentifier", "startswith", "endswith"):
                st.types.setdefault(t, frozenset(["bool"]))
            return [(self.canon(t, st), st)]
        if name == "write":
            self.event(st, "write", ".write", b, tuple(args), tuple(kw), NONE, self.pos(fr, node))
            return [(NONE, st)]
        if name == "writelines" and args:
            def wb(e, s):
                self.event(s, "write", ".write", b, (e,), (), NONE, self.pos(fr, node))
                return [(None, s)]
            return [(NONE if c is None else Abr(c), s) for c, s in self.iterate(args[0], st, fr, node, wb)]
        if name in ("is_package", "is_dir", "is_file", "exists", "contains_file"):
            t = ("call", "." + name, (b,) + tuple(args), tuple(kw), 0)
            self.event(st, "call", "." + name, b, tuple(args), tuple(kw), t, self.pos(fr, node))
            return [(self.canon(t, st), st)]
        return self.ext_event(st, "." + name, b, args, kw, fr, node)

    def affix(self, b, name, a, st):
        if is_const(b) and is_const(a):
            return [(getattr(b[2], name)(a[2]), st)]
        parts = cat_parts(b)
        edge = parts[0] if name == "startswith" else parts[-1]
        if is_str_const(edge) and is_str_const(a) and len(parts) > 1 and a[2]:
            if len(edge[2]) >= len(a[2]):
                return [(getattr(edge[2], name)(a[2]), st)]
        return self.fork_fact(("affix", name, b, a), st)

    def join(self, sep, it, st):
        if it[0] == "tup":
            vals = it[1]
        elif it in st.cont and all(i.mode == "item" and not i.loops and not i.conds for i in st.cont[it]):
            vals = [i.val for i in st.cont[it]]
        else:
            return ("join", sep, self.deep(it, st))
        out = []
        for i, v in enumerate(vals):
            if i:
                out.append(sep)
            out.append(v)
        return cat(out)

    def format(self, fmt, args, kw, st):
        import string
        try:
            out, auto = [], 0
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    out.append(C(lit))
                if field is None:
                    continue
                root = field
                if root == "":
                    v = args[auto]
                    auto += 1
                elif root.isdigit():
                    v = args[int(root)]
                elif "." in root or "[" in root:
                    return None
                else:
                    v = dict(kw)[root]
                if spec or conv:
                    v = ("fmt", v, ord(conv) if conv else -1, spec)
                out.append(self.to_str(v, st, implicit=True))
            return cat(out)
        except (KeyError, IndexError, ValueError):
            return None

    MUT = {"append", "extend", "insert", "add", "update", "remove", "discard", "pop", "popleft", "appendleft", "popitem",
           "clear", "setdefault", "reverse", "sort", "difference_update", "intersection_update", "extendleft"}

    def bump(self, b, st):
        st.cver[b] = (st.cver.get(b), len(st.events), len(st.cont[b]))
        if len(repr(st.cver[b])) > 200:
            self.nobj += 1
            st.cver[b] = ("v", self.nobj)

    def container_method(self, b, name, args, kw, st, fr, node):
        kind = st.ckind[b]
        items = st.cont[b]
        pos = self.pos(fr, node)

        def simple(xs):
            return all(i.mode == "item" and not i.loops and not i.conds for i in xs)
        if name in ("append", "add") and len(args) == 1:
            st.cont[b] = items + (Item("item", args[0], None, self.rel_loops(b, st), (), pos),)
            self.bump(b, st)
            self.mut_event(st, b, name, args, pos)
            return [(NONE, st)]
        if name == "appendleft" and len(args) == 1:
            st.cont[b] = (Item("item", args[0], None, self.rel_loops(b, st), (), pos),) + items
            self.bump(b, st)
            self.mut_event(st, b, name, args, pos)
            return [(NONE, st)]
        if name in ("extend", "update", "union", "extendleft") and kind != "dict":
            add = []
            outs = [([], st)]
            for a in args:
                nxt = []
                for acc, s in outs:
                    if a[0] in ("gen", "map_of", "filter_of", "enum_of", "zip_of", "chain_of"):
                        for v, s2 in self.collect(a, "list", s, fr, node):
                            if isinstance(v, Abr):
                                nxt.append((v, s2))
                            else:
                                nxt.append((acc + list(s2.cont[v]), s2))
                    else:
                        nxt.append((acc + self.as_items(a, s), s))
                outs = nxt
            res = []
            for acc, s in outs:
                if isinstance(acc, Abr):
                    res.append((acc, s))
                    continue
                new = tuple(Item(i.mode, i.val, i.key, self.rel_loops(b, s) + i.loops, i.conds, pos) for i in acc)
                if name == "union":
                    res.append((self.new_obj(s, kind, s.cont[b] + new), s))
                    continue
                s.cont[b] = s.cont[b] + new
                mm = tuple(x for a in args for x in s.minus.get(a, ()))
                if mm:
                    s.minus[b] = s.minus.get(b, ()) + mm
                self.bump(b, s)
                self.mut_event(s, b, name, args, pos)
                res.append((NONE, s))
            return res
        if name == "update" and kind == "dict":
            for a in args:
                st.cont[b] = st.cont[b] + tuple(Item(i.mode, i.val, i.key, self.rel_loops(b, st) + i.loops, i.conds, pos) for i in self.as_items(a, st))
            st.cont[b] = st.cont[b] + tuple(Item("item", v, C(k), self.rel_loops(b, st), (), pos) for k, v in kw if k != "**")
            self.bump(b, st)
            self.mut_event(st, b, name, args, pos)
            return [(NONE, st)]
        if name == "insert" and len(args) == 2:
            at = self._split_at(b, args[0], st)
            new = Item("item", args[1], None, self.rel_loops(b, st), (), pos)
            if at is None:
                at2 = len(items)
                st.cont[b] = items[:at2] + (Item("item", ("unplaced", args[0], args[1]), None, self.rel_loops(b, st), (), pos),)
            else:
                st.cont[b] = items[:at] + (new,) + items[at:]
            self.bump(b, st)
            self.mut_event(st, b, name, args, pos)
            return [(NONE, st)]
        if name in ("pop", "popleft") and kind != "dict":
            first = name == "popleft" or (args and args[0] == C(0))
            if items and not (args and not is_int_const(args[0])):
                tgt = items[0] if first else items[-1]
                if simple([tgt]) and (not args or first or args[0] == C(-1)):
                    st.cont[b] = items[1:] if first else items[:-1]
                    self.bump(b, st)
                    self.mut_event(st, b, name, args, pos)
                    return [(tgt.val, st)]
            n = st.occ.get(("pop", b), 0)
            st.occ[("pop", b)] = n + 1
            t = ("popped", b, n)
            self.bump(b, st)
            self.event(st, "pop", name, b, tuple(args), (), t, pos)
            return [(t, st)]
        if name == "clear":
            st.cont[b] = ()
            self.bump(b, st)
            self.mut_event(st, b, name, args, pos)
            return [(NONE, st)]
        if name in ("remove", "discard") and len(args) == 1:
            mem = self.member(args[0], b, st, fr, node)
            outs = []
            for r, s in mem:
                if r:
                    s.minus[b] = s.minus.get(b, ()) + (self.deep(args[0], s),)
                    self.bump(b, s)
                    self.mut_event(s, b, name, args, pos)
                    outs.append((NONE, s))
                elif name == "discard":
                    outs.append((NONE, s))
                elif self.catches(("KeyError", "ValueError")):
                    outs.append((Abr(("raise", ("exc", "KeyError", pos))), s))
            return outs
        if name == "difference_update":
            st.minus[b] = st.minus.get(b, ()) + tuple(self.deep(a, st) for a in args)
            self.bump(b, st)
            self.mut_event(st, b, name, args, pos)
            return [(NONE, st)]
        if name == "difference":
            r = self.new_obj(st, "set", items)
            st.minus[r] = st.minus.get(b, ()) + tuple(self.deep(a, st) for a in args)
            return [(r, st)]
        if name == "copy":
            r = self.new_obj(st, kind, items)
            if b in st.minus:
                st.minus[r] = st.minus[b]
            return [(r, st)]
        if name in ("reverse", "sort"):
            self.mut_event(st, b, name, args, pos)
            kwd = dict(kw)
            self.event(st, "order", ("sorted", kwd.get("key"), kwd.get("reverse")) if name == "sort" else "reversed", b, (), (), NONE, pos)
            return [(NONE, st)]
        if kind == "dict":
            if name in ("get",):
                dflt = args[1] if len(args) > 1 else NONE
                for i in reversed(items):
                    if i.mode == "item" and i.key == args[0] and not i.conds:
                        return [(i.val, st)]
                if simple(items) and all(is_const(i.key) for i in items) and is_const(args[0]):
                    return [(dflt, st)]
                if not items:
                    return [(dflt, st)]
                outs = []
                for r, s in self.fork_fact(("in", args[0], b), st):
                    outs.append((("item", b, args[0]) if r else dflt, s))
                return outs
            if name == "setdefault":
                outs = []
                for r, s in self.member(args[0], b, st, fr, node):
                    if r:
                        hit = [i.val for i in s.cont[b] if i.mode == "item" and i.key == args[0]]
                        outs.append((hit[-1] if hit else ("item", b, args[0]), s))
                    else:
                        v = args[1] if len(args) > 1 else NONE
                        s.cont[b] = s.cont[b] + (Item("item", v, args[0], self.rel_loops(b, s), (), pos),)
                        s.facts[("in", args[0], b)] = True
                        self.bump(b, s)
                        self.event(s, "mut", "set", b, (args[0], v), (("was", FALSE),), NONE, pos)
                        outs.append((v, s))
                return outs
            if name == "pop":
                outs = []
                for r, s in self.member(args[0], b, st, fr, node):
                    if r:
                        hit = [i.val for i in s.cont[b] if i.mode == "item" and i.key == args[0]]
                        s.facts[("in", args[0], b)] = False
                        self.mut_event(s, b, "del", args, pos)
                        outs.append((hit[-1] if hit else ("item", b, args[0]), s))
                    elif len(args) > 1:
                        outs.append((args[1], s))
                    elif self.catches(("KeyError",)):
                        outs.append((Abr(("raise", ("exc", "KeyError", pos))), s))
                return outs
            if name in ("items", "keys", "values"):
                return [((name + "_of", b), st)]
        return None

    def rel_loops(self, b, st):
        return tuple(st.loops)

    def mut_event(self, st, b, name, args, pos):
        self.event(st, "mut", name, b, tuple(args), (), NONE, pos)

    def dict_set(self, b, k, v, st, fr, node):
        pos = self.pos(fr, node)
        if b in st.cont:
            st.cont[b] = st.cont[b] + (Item("item", v, k, self.rel_loops(b, st), (), pos),)
            was = st.facts.get(("in", k, b))
            st.facts[("in", k, b)] = True
            self.bump(b, st)
            self.event(st, "mut", "set", b, (k, v), (("was", NONE if was is None else C(was)),), NONE, pos)
            return [(NONE, st)]
        was = st.facts.get(("in", k, b))
        extra = (("was", NONE if was is None else C(was)), ("old", st.heap.get((b, ("item", k)), ("item", b, k))))
        st.heap[(b, ("item", k))] = v
        st.facts[("in", k, b)] = True
        self.event(st, "dset", "set", b, (k, v), extra, NONE, pos)
        return [(NONE, st)]

    def dict_del(self, b, k, st, fr, node):
        pos = self.pos(fr, node)
        outs = []
        fact = st.facts.get(("in", k, b))
        if fact is False:
            return [(Abr(("raise", ("exc", "KeyError", pos))), st)]
        if fact is None and self.catches(("KeyError",)):
            s2 = st.fork()
            s2.facts[("in", k, b)] = False
            outs.append((Abr(("raise", ("exc", "KeyError", pos))), s2))
        old = st.heap.pop((b, ("item", k)), ("item", b, k))
        if b in st.cont:
            st.cont[b] = tuple(i for i in st.cont[b] if i.key != k)
            self.bump(b, st)
        st.facts[("in", k, b)] = False
        self.event(st, "ddel", "del", b, (k,), (), old, pos)
        outs.append((NONE, st))
        return outs

    def collection_method(self, b, name, args, kw, st, fr, node):
        """dict/set/list operations on values whose contents are unknown."""
        pos = self.pos(fr, node)
        if name == "get" and 1 <= len(args) <= 2 and b[0] in ("attr", "ext", "glob", "sym", "item"):
            outs = []
            for r, s in self.member(args[0], b, st, fr, node):
                if r:
                    outs.append((s.heap.get((b, ("item", args[0])), self.canon(("item", b, args[0]), s)), s))
                else:
                    outs.append((args[1] if len(args) > 1 else NONE, s))
            return outs
        if name == "pop" and args and not is_int_const(args[0]):
            outs = []
            for r, s in self.member(args[0], b, st, fr, node):
                if r:
                    v = s.heap.pop((b, ("item", args[0])), self.canon(("item", b, args[0]), s))
                    s.facts[("in", args[0], b)] = False
                    self.event(s, "ddel", "pop", b, (args[0],), (), v, pos)
                    outs.append((v, s))
                elif len(args) > 1 or kw:
                    outs.append((args[1], s))
                elif self.catches(("KeyError",)) or self.policy.raise_all:
                    outs.append((Abr(("raise", ("exc", "KeyError", pos))), s))
            return outs
        if name == "setdefault" and len(args) == 2:
            outs = []
            for r, s in self.member(args[0], b, st, fr, node):
                if r:
                    outs.append((s.heap.get((b, ("item", args[0])), self.canon(("item", b, args[0]), s)), s))
                else:
                    s.heap[(b, ("item", args[0]))] = args[1]
                    s.facts[("in", args[0], b)] = True
                    self.event(s, "dset", "setdefault", b, tuple(args), (), NONE, pos)
                    outs.append((args[1], s))
            return outs
        if name in ("append", "add", "extend", "insert", "update", "discard", "remove", "clear", "pop", "popleft", "appendleft", "reverse", "sort", "difference_update") and b[0] in ("attr", "ext", "glob", "item", "sym", "call", "loopvar", "elem"):
            if name == "add" and len(args) == 1:
                was = st.facts.get(("in", args[0], b))
                kw = tuple(kw) + (("was", NONE if was is None else C(was)),)
                if b[0] in ("attr", "glob"):
                    st.facts[("in", args[0], b)] = True
            if name in ("discard", "remove") and len(args) == 1:
                outs = []
                for r, s in self.member(args[0], b, st, fr, node):
                    if r:
                        s.facts[("in", args[0], b)] = False
                        self.event(s, "mut", name, b, tuple(args), (), NONE, pos)
                        outs.append((NONE, s))
                    elif name == "discard":
                        outs.append((NONE, s))
                    elif self.catches(("KeyError", "ValueError")):
                        outs.append((Abr(("raise", ("exc", "KeyError" if self.catches(("KeyError",)) else "ValueError", pos))), s))
                return outs
            n = st.occ.get(("pop", b), 0)
            st.occ[("pop", b)] = n + 1
            t = ("popped", b, n) if name in ("pop", "popleft") else NONE
            if name in ("pop", "popleft", "clear", "update", "difference_update"):
                for k in [k for k in st.facts if (k[0] == "in" and k[2] == b and name in ("clear", "update", "difference_update")) or k == ("truth", b)]:
                    del st.facts[k]
            self.event(st, "mut", name, b, tuple(args), tuple(kw), t, pos)
            return [(t, st)]
        return None

    # ------------------------------------------------------------------ views
    def deep(self, t, st, depth=5, seen=()):
        """Structural snapshot of a value: containers and node objects are expanded."""
        if depth <= 0:
            return t
        if t in st.cont and t not in seen:
            items = tuple((i.mode, self.deep(i.val, st, depth - 1, seen + (t,)),
                           None if i.key is None else self.deep(i.key, st, depth - 1, seen + (t,)), i.loops, i.conds) for i in st.cont[t])
            return ("coll", st.ckind[t], items, st.minus.get(t, ()))
        if t[0] == "obj" and t not in seen and t[2] in self.repo.classes:
            fs = tuple(sorted((a, self.deep(v, st, depth - 1, seen + (t,))) for (o, a), v in st.heap.items() if o == t and isinstance(a, str)))
            return ("node", t[2], t[1], fs)
        if t[0] == "rec":
            return ("rec", t[1], tuple((f, self.deep(v, st, depth - 1, seen)) for f, v in t[2]))
        if t[0] == "tup":
            return ("tup", tuple(self.deep(v, st, depth - 1, seen) for v in t[1]))
        if t[0] == "cat":
            return ("cat", tuple(self.deep(v, st, depth - 1, seen) for v in t[1]))
        return t


EXT_TYPES = {
    "importlib.util.find_spec": frozenset(["None", "importlib.machinery.ModuleSpec+"]),
    "open": frozenset(["io.TextIOBase+"]),
    "importlib.import_module": frozenset(["types.ModuleType+"]),
}


def _dom_meet(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == "in" and b[0] == "in":
        r = a[1] & b[1]
        return ("in", r) if r else None
    if a[0] == "in":
        r = a[1] - b[1]
        return ("in", r) if r else None
    if b[0] == "in":
        r = b[1] - a[1]
        return ("in", r) if r else None
    return ("notin", a[1] | b[1])


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t
