"""Representative values for abstract values.

Some properties speak about the *shape* of a string (a recorded file name, a dotted name, a title to
be escaped). The abstract domain for such a string is a finite set of shapes; each shape is written
down as one representative. A path condition or a computed value of the analysis (a term over that
string) is decided for a shape by applying the term's operations - string methods, os.path and pathlib
arithmetic, slices, comparisons - to the representative. Operations outside the table are unknown; a
condition that is not understood may be true or false.
"""
import ast
import html
import os
import pathlib
import posixpath

from .terms import is_const, walk

STR = {"startswith", "endswith", "replace", "split", "rsplit", "partition", "rpartition", "strip", "lstrip", "rstrip", "lower", "upper",
       "removeprefix", "removesuffix", "find", "rfind", "index", "rindex", "count", "join", "splitlines", "isidentifier", "casefold", "format", "zfill",
       "translate", "title", "capitalize", "isdigit", "expandtabs"}
PATHS = {"pathlib.Path": pathlib.PurePosixPath, "pathlib.PurePath": pathlib.PurePosixPath, "pathlib.PurePosixPath": pathlib.PurePosixPath}
PATH_M = {"with_suffix", "with_name", "joinpath", "is_absolute", "as_posix", "relative_to", "is_relative_to", "match"}
PATH_A = {"name", "stem", "suffix", "suffixes", "parts", "parent", "parents", "anchor", "root"}
CWD = "/cwd"


def _abspath(x):
    return posixpath.normpath(posixpath.join(CWD, x))


PURE = {"os.path.join": posixpath.join, "os.path.normpath": posixpath.normpath, "os.path.abspath": _abspath, "os.path.realpath": _abspath, "os.path.dirname": posixpath.dirname,
        "os.path.basename": posixpath.basename, "os.path.splitext": posixpath.splitext, "os.path.split": posixpath.split,
        "os.path.isabs": posixpath.isabs, "os.fspath": lambda x: os.fspath(x), "os.path.commonpath": lambda xs: posixpath.commonpath(list(xs)), "os.path.relpath": lambda a, b=CWD: posixpath.relpath(_abspath(a), _abspath(b)),
        "len": len, "str": str, "tuple": tuple, "list": list, "sorted": sorted, "any": any, "all": all, "reversed": lambda x: list(reversed(x)),
        "int": int, "bool": bool, "repr": repr, "ord": ord, "chr": chr, "min": min, "max": max, "html.escape": html.escape, "set": set, "frozenset": frozenset,
        "ast.literal_eval": ast.literal_eval, "os.path.normcase": posixpath.normcase, "sum": sum, "type": type, "id": lambda x: x}
EXT = {"os.sep": "/", "os.path.sep": "/", "os.extsep": ".", "os.curdir": ".", "os.pardir": "..", "os.altsep": None, "os.linesep": "\n"}


class Unknown(Exception):
    pass


class Rep:
    """Representative of a node, edge or other object: its class (with bases) and attribute values."""

    def __init__(self, classes, **attrs):
        self.classes, self.attrs = classes, attrs

    def __repr__(self):
        return f"<{self.classes[0]} {self.attrs.get('identifier', '')}>"


class Values:
    """Terms of one path for one choice of representatives.

    `env` gives the representatives of terms; `universe` those of everything a loop runs over (for the
    content of collections that are filled by a loop of their own)."""

    def __init__(self, p, env, funcs=None, universe=None, siblings=None):
        self.p, self.env, self.funcs, self.universe, self.siblings = p, env, funcs or {}, universe or {}, siblings

    def bind(self, more):
        return Values(self.p, {**self.env, **more}, self.funcs, self.universe)

    def conds(self, conds):
        """Do the conditions under which something is collected hold?"""
        for kind, key, val in conds:
            if kind == "type":
                continue
            if kind == "fact":
                if key[0] == "nonempty" and key[1] in self.universe:
                    continue
                r = self.fact(key)
            elif kind == "dom":
                r = (self.ev(key) in [self.ev(c) for c in val[1]]) == (val[0] == "in")
                val = True
            else:
                r = None
            if r is None:
                raise Unknown(key)
            if bool(r) != val:
                return False
        return True

    def everything(self, t):
        """All members of a collection, over the whole universe."""
        st = self.p.st
        if t not in st.cont:
            return self.items(t)
        out = []
        if self.siblings:
            # conditions on the members show up as different paths
            for q in self.siblings:
                for L, xs in self.universe.items():
                    for x in xs if t in q.st.cont else ():
                        V = Values(q, {("elem", L, 0): x}, self.funcs, {L: [x]})
                        if V.holds({("elem", L, 0)}) is not False:
                            out += [y for y in V.everything(t) if y not in out]
            return out
        for i in st.cont[t]:
            if i.mode == "seg" and i.val and i.val[0] == "prev" or any(L[0] == "prev" for L in i.loops):
                continue
            vs = [self]
            for L in i.loops:
                if L not in self.universe:
                    if ("elem", L, 0) in self.env:
                        continue
                    raise Unknown(L)
                vs = [v.bind({("elem", L, 0): x}) for v in vs for x in self.universe[L]]
            for v in vs:
                if v.conds(i.conds):
                    if i.mode == "item":
                        out.append(v.ev(i.val))
                    else:
                        out.extend(v.seq(i.val))
        return out

    def __call__(self, t):
        return self.ev(t)

    def get(self, t, default=None):
        try:
            return self.ev(t)
        except Unknown:
            return default

    def items(self, t):
        """Values of a container or sequence whose content is known."""
        st = self.p.st
        if t in st.cont and t[0] == "obj":
            kind = st.ckind.get(t)
            if kind not in ("list", "tuple", "set", "frozenset", "deque") or st.minus.get(t):
                raise Unknown(t)
            out = []
            for i in st.cont[t]:
                self.member_of(i.mode, i.val, i.loops, i.conds, out)
            return out
        v = self.ev(t)
        if isinstance(v, (list, tuple, set, frozenset)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        raise Unknown(t)

    def member_of(self, mode, val, loops, conds, out):
        if mode == "seg" and val and val[0] == "prev" and self.universe:
            return  # what earlier turns of the loop contributed
        if self.universe and any(L[0] == "prev" for L in loops):
            return
        if any(("elem", L, 0) not in self.env for L in loops):
            if any(self.env.get(L) == [] for L in loops):
                return
            raise Unknown(val)
        if conds and not self.conds(conds):
            return
        if mode == "item":
            out.append(self.ev(val))
        else:
            out.extend(self.seq(val))

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        try:
            return self._ev(t)
        except Unknown:
            raise
        except Exception as exc:  # the operation fails for this representative
            raise Unknown(f"{exc!r}") from exc

    def _ev(self, t):
        k, ev = t[0], self.ev
        if is_const(t):
            return t[2]
        if k == "ext" and t[1] in EXT:
            return EXT[t[1]]
        if k == "cat":
            return "".join(str(ev(x)) for x in t[1])
        if k == "tup":
            return tuple(ev(x) for x in t[1])
        if k == "lin":
            return t[1] + sum(ev(x) * n for x, n in t[2])
        if k == "str":
            return str(ev(t[1]))
        if k == "fmt":
            v = ev(t[1])
            v = {114: repr, 115: str, 97: ascii}.get(t[2], lambda x: x)(v)
            spec = t[3] if len(t) > 3 else ""
            spec = ev(spec) if isinstance(spec, tuple) else spec or ""
            return format(v, spec)
        if k == "rep":
            return ev(t[1]) * ev(t[2])
        if k == "op" and len(t) == 4:
            a, b = ev(t[2]), ev(t[3])
            if t[1] == "+":
                return a + b
            if t[1] in ("%", "Mod"):
                return a % b
            if t[1] in ("/", "Div"):
                return a / b
            if t[1] in ("*", "Mult"):
                return a * b
            raise Unknown(t)
        if k == "slice":
            b = ev(t[1])
            return b[slice(*(None if x is None else ev(x) for x in t[2:5]))]
        if k == "item":
            return ev(t[1])[ev(t[2])]
        if k == "join":
            return ev(t[1]).join(self.seq(t[2]))
        if k == "coll":
            return self.seq(t)
        if k == "m":
            return self.method(t[1], ev(t[2]), [ev(x) for x in t[3]])
        if k == "attr":
            b = ev(t[1])
            if isinstance(b, pathlib.PurePath) and t[2] in PATH_A:
                return getattr(b, t[2])
            if isinstance(b, Rep) and t[2] in b.attrs:
                return b.attrs[t[2]]
            if isinstance(b, tuple) and b[:1] == ("class",) and t[2] in ("__name__", "__qualname__"):
                return b[1]
            raise Unknown(t)
        if k == "cls":
            return ("class", t[1])
        if k == "type":
            b = ev(t[1])
            if isinstance(b, Rep):
                return ("class", b.classes[0])
            raise Unknown(t)
        if k == "affix":
            return getattr(ev(t[2]), t[1])(ev(t[3]))
        if k in ("truth", "in", "eq", "cmp", "nonempty", "isinst", "is", "numeq"):
            r = self.fact(t)
            if r is None:
                raise Unknown(t)
            return r
        if k == "obj":
            v = self.items(t)
            kind = self.p.st.ckind.get(t)
            return tuple(v) if kind == "tuple" else set(v) if kind in ("set", "frozenset") else v
        if k == "call":
            kw = {a: ev(b) for a, b in t[3]}
            name = t[1]
            if name in self.funcs:
                return self.funcs[name](*[ev(x) for x in t[2]], **kw)
            if name in PATHS:
                return PATHS[name](*[ev(x) for x in t[2]])
            if name in PURE:
                return PURE[name](*[self.ev(x) for x in t[2]], **kw)
            if name.startswith("."):
                a = [ev(x) for x in t[2]]
                return self.method(name[1:], a[0], a[1:], kw)
        raise Unknown(t)

    def seq(self, t):
        if t[0] == "coll":
            out = []
            for i in t[2]:
                self.member_of(i[0], i[1], i[3], i[4], out)
            return out
        return self.items(t)

    def method(self, name, b, args, kw={}):
        if isinstance(b, str) and name in STR:
            if name == "join":
                args = [list(args[0])]
            if name in ("startswith", "endswith") and isinstance(args[0], list):
                raise Unknown(name)
            return getattr(b, name)(*args, **kw)
        if isinstance(b, bytes) and name in ("decode", "rstrip", "strip"):
            return getattr(b, name)(*args, **kw)
        if isinstance(b, pathlib.PurePath) and name in PATH_M:
            return getattr(b, name)(*args, **kw)
        if isinstance(b, (tuple, list)) and name in ("index", "count"):
            return getattr(b, name)(*args)
        if isinstance(b, dict) and name == "get":
            return b.get(*args)
        raise Unknown(name)

    def fact(self, k):
        """Does this condition hold? None when that is not known."""
        try:
            if k[0] == "truth":
                return bool(self.ev(k[1]))
            if k[0] == "nonempty":
                v = self.ev(k[1])
                return len(v) > 0 if hasattr(v, "__len__") else None
            if k[0] == "in":
                if k[2] in self.p.st.cont:
                    return self.ev(k[1]) in (self.everything(k[2]) if self.universe else self.items(k[2]))
                return self.ev(k[1]) in self.ev(k[2])
            if k[0] in ("eq", "is"):
                return self.ev(k[1]) == self.ev(k[2])
            if k[0] == "affix":
                return getattr(self.ev(k[2]), k[1])(self.ev(k[3]))
            if k[0] == "numeq":
                return sum(self.ev(t) * n for t, n in k[1]) == k[2]
            if k[0] == "cmp":
                a, b = self.ev(k[2]), self.ev(k[3])
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[k[1]]
            if k[0] == "isinst" and isinstance(self.get(k[1]), Rep):
                c = self.ev(k[1]).classes
                return (k[2] if isinstance(k[2], str) else k[2][1]) in c
            if k[0] == "isinst" and k[2] in ("str", "int", "bool", "None", "list", "tuple", "bytes"):
                v = self.ev(k[1])
                return v is None if k[2] == "None" else isinstance(v, {"str": str, "int": int, "bool": bool, "list": list, "tuple": tuple, "bytes": bytes}[k[2]])
        except Unknown:
            return None
        except Exception:
            return None
        return None

    def holds(self, about=None, classes=False):
        """Can the path be taken? False: no; True: every condition on it (that speaks about the terms
        `about`) is understood and met; None: not known. With `classes`, only conditions on the class of
        a value and on its being in a collection count."""
        st, sure = self.p.st, True
        for k, b in st.facts.items():
            if classes and not (k[0] == "isinst" or k[0] == "in" and k[2] in st.cont):
                continue
            r = self.fact(k)
            if r is None:
                if about is None or any(y in about for y in walk(k)):
                    sure = None
            elif bool(r) != b:
                return False
        for t, d in st.dom.items() if not classes else ():
            try:
                v = self.ev(t)
            except Unknown:
                continue
            try:
                hit = v in [self.ev(c) for c in d[1]]
            except Unknown:
                sure = None
                continue
            if hit != (d[0] == "in"):
                return False
        for key, (lo, hi) in st.bounds.items() if not classes else ():
            try:
                v = sum(self.ev(t) * n for t, n in key)
            except Unknown:
                sure = None
                continue
            if lo is not None and v < lo or hi is not None and v > hi:
                return False
        for t, S in st.types.items():
            if S is None:
                continue
            v = self.get(t, Ellipsis)
            if v is Ellipsis:
                continue
            if isinstance(v, Rep):
                if not (v.classes[0] in S or any(c.endswith("+") and c[:-1] in v.classes for c in S)):
                    return False
            elif v is None or S == frozenset({"None"}):
                if (v is None) != ("None" in S):
                    return False
            else:
                n = type(v).__name__
                if n in ("str", "int", "bool") and all(c in ("str", "None", "int", "bool", "list", "tuple", "dict", "bytes") for c in S) and n not in S:
                    return False
        return sure
