"""C20, C21: installed distributions."""
import csv
import itertools

from ..domain import Unknown, Values
from ..rulekit import *  # noqa: F401,F403
from ..rulekit import C, FALSE, NONE, TRUE, P, pretty, same, walk, is_const
from ..repo import AnalysisBroken

MARK = ".dist-info"


# ---------------------------------------------------------------------------- looking through a path
def listing_of(t):
    """The directory a listing belongs to, or None."""
    if t is None:
        return None
    if t[0] == "call" and t[1] in ("list", "tuple", "iter") and t[2]:
        return listing_of(t[2][0])
    if t[0] in ("call", "m") and t[1].split(".")[-1] in ("iterdir", "listdir", "scandir", "glob"):
        args = t[2] if t[0] == "call" else (t[2],) + tuple(t[3])
        if len(args) == 1 or args[1:] in ((C("*"),), (C("*" + MARK),)):
            return args[0]
    return None


def only_marked(t):
    return any(y == C("*" + MARK) for y in walk(t))


def about_marker(p, x):
    """Does the entry x carry the .dist-info mark? None when the path does not say."""
    for k, v in p.st.facts.items():
        if k[0] == "affix" and k[1] != "endswith" or k[0] == "in" and k[1] == C(MARK):
            continue        # the mark has to be at the end
        if any(y and y[0] == "c" and y[2] in (MARK, "*" + MARK, MARK[1:]) for y in walk(k)) and any(y == x for y in walk(k)):
            return v
    for t, d in p.st.dom.items():
        if any(y == x for y in walk(t)) and C(MARK) in d[1]:
            return d[0] == "in"
    return None


def not_a_dir(p, x):
    for k, v in p.st.facts.items():
        if v is False and k[0] == "truth" and isinstance(k[1], tuple) and any(y == x for y in walk(k[1])) and \
                any(y and y[0] in ("call", "m") and y[1].split(".")[-1] in ("isdir", "is_dir", "exists", "isfile", "is_file") for y in walk(k[1])):
            return True
    return False


def path_term(p):
    return ("ext", "sys.path") if p.is_none(("sym", "path")) else ("sym", "path")


def stands_for(p, t, x):
    """Is t the sequence x itself, in its order?"""
    if t == x:
        return True
    if t in p.st.cont and t[0] == "obj":
        return p.st.ckind.get(t) in ("list", "tuple", "deque") and [(i.mode, i.val) for i in p.st.cont[t]] == [("seg", x)] and not p.st.minus.get(t)
    if t and t[0] == "call" and t[1] in ("list", "tuple", "iter", "enumerate") and t[2]:
        return stands_for(p, t[2][0], x)
    return False


def made(t):
    """The argument of create_distribution if t is the object it made."""
    if t and len(t) > 2 and t[0] == "call" and isinstance(t[1], str) and t[1].split(".")[-1].split(":")[-1] == "create_distribution" and t[2]:
        return t[2][0]
    return None


def cache_key(p, t):
    """The key if t was taken from a module-level table."""
    if t and t[0] == "item" and t[1][0] == "glob":
        return t[2]
    if t and t[0] == "call" and t[1] in (".get", ".setdefault") and t[2] and t[2][0][0] == "glob" and len(t[2]) > 1:
        return t[2][1]
    return None


def memo(repo, names):
    """Is one of these functions decorated to remember every result?"""
    for m in repo.modules.values():
        for b in m.names.values():
            if b[0] == "func" and b[1].name in names:
                import ast
                for d in b[1].node.decorator_list:
                    txt = ast.unparse(d).replace(" ", "")
                    if txt.split(".")[-1] == "cache" or txt.endswith("lru_cache(maxsize=None)") or txt.endswith("lru_cache(None)"):
                        return True
    return False


KEEPING = {"join", "abspath", "realpath", "normpath", "normcase", "fspath", "fsdecode", "fsencode", "Path", "PurePath", "PosixPath", "joinpath", "absolute",
           "resolve", "str", "encode", "decode", "format", "as_posix", "__truediv__", "intern", "hash", "repr", "removesuffix", "create_distribution"}


def parts_of(t, stop, keeping=False):
    """Subterms, without looking into what the loop variables `stop` range over (`keeping`: nor into what can drop a part)."""
    todo, out = [t], []
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            out.append(x)
            if keeping and x and x not in stop and (
                    x[0] in ("call", "m") and isinstance(x[1], str) and x[1].split(".")[-1] not in KEEPING or x[0] in ("slice", "item") or x[0] == "attr" and x[2] not in ("path",)):
                continue
            if x not in stop and made(x) is None:
                todo.extend(x)
    return out


def text_reads(p):
    """Text files opened on a path: (event, mode, encoding, errors)."""
    for e in p.evs("call"):
        if isinstance(e.fn, str) and e.fn.split(".")[-1] in ("open", "read_text") or e.fn == "codecs.open":
            off = 0 if e.fn in ("open", "io.open", "codecs.open") else -1
            kw = dict(e.kw)

            def arg(name, pos):
                v = e.args.get(name) if isinstance(e.args, dict) else None
                v = v if v is not None else e.arg(name, pos + off) if pos + off >= 0 else kw.get(name)
                return v[2] if v is not None and v[0] == "c" else v
            mode = "r" if e.fn.endswith("read_text") else arg("mode", 1) or "r"
            if e.fn.endswith("read_text"):
                yield e, mode, arg("encoding", 1), arg("errors", 2)
            elif "b" not in mode:
                yield e, mode, arg("encoding", 3), arg("errors", 4)


def record_errors(ck):
    """Exceptions, other than those of reading the files, that the content of a .dist-info directory can cause."""
    fi = ck.repo.func("_distributions:create_distribution")
    if fi is None:
        raise AnalysisBroken("create_distribution not found")
    out = set()
    for p in ck.run(ck.engine(raise_only=set(), assert_raises=True), fi, label="create_distribution[errors]"):
        if p.kind == "raise":
            out.add(p.value[1])
        for e, mode, enc, err in text_reads(p):
            if err in (None, "strict"):
                out.add("UnicodeDecodeError")
    return out - {"OSError"}


def metadata_rule(ck):
    """The name and version of a distribution are those its METADATA file states."""
    ck.rule("metadata", "the name and version of a distribution are the ones its metadata file states, one that states none is not made")
    c = "create_distribution"
    for p in ck.run(ck.engine(raise_only=set()), ck.repo.func("_distributions:create_distribution"), label="create_distribution[metadata]"):
        if p.kind == "raise":
            continue
        v = p.value
        if not (v and v[0] == "rec" and v[1] == "PyPIDistribution"):
            raise AnalysisBroken("create_distribution does not give a distribution")
        f = dict(v[2])
        for field, header in (("name", "name"), ("version", "version")):
            t = f.get(field)
            w = p.where()
            if t is None:
                ck.ob("metadata", False, c, w, f"a distribution is made without a {field}")
                continue
            strs = [y[2] for y in walk(t) if y and y[0] == "c" and isinstance(y[2], str)]
            heads = [x for x in strs if x.lower() in ("name", "version")]
            ck.ob("metadata", [x.lower() for x in heads] == [header], f"{c}:{field}", w, f"the {field} is {pretty(t)}, which is not the header of that name")
            ck.ob("metadata", any(x.split("/")[-1] == "METADATA" for x in strs) and ("sym", "distribution_file") in list(walk(t)), f"{c}:{field}", w,
                  f"the {field} is not taken from the METADATA file of the distribution")
            known = p.isinst(t, "str") is True or p.is_none(t) is False or p.truthy(t) is True or not (t[0] == "item" or t[0] == "call" and t[1].endswith(".get") or t[0] == "m" and t[1].endswith("get"))
            ck.ob("metadata", known, f"{c}:{field}", w, f"a distribution is made from metadata without a {field}")
    ck.instances("metadata", 4)


def all_rule(ck):
    R = ck.rule
    R("order", "every entry of the search path is looked at, in order, and every name in a readable entry")
    R("each", "every .dist-info name of a readable entry gives exactly one distribution, made from that name")
    R("one", "a distribution seen before is the object made then, a new one is remembered before it is handed out")
    R("skip", "an unreadable entry or distribution is passed over and the rest is still looked at")
    fi = ck.repo.func("_distributions:all_distributions")
    if fi is None:
        raise AnalysisBroken("all_distributions not found")
    bad = record_errors(ck)
    eng = ck.engine(opaque={"create_distribution"}, raises={"create_distribution": ("OSError", *sorted(bad)), "os.listdir": ("OSError",), "os.scandir": ("OSError",), ".iterdir": ("OSError",), ".glob": ("OSError",)},
                    raise_only={"create_distribution", "os.listdir", "os.scandir", ".iterdir"}, lookup_raises="tables")
    where = fi.module.path
    for p in ck.run(eng, fi, on_yield=None):
        c = "all_distributions"
        w = p.where()
        if p.kind == "raise":
            ck.ob("skip", False, c, w, f"{p.value[1]} of an unreadable entry or distribution ends the search ({p.cond_text(4)})")
            continue
        X = path_term(p)
        ends = [e for e in p.events if e.kind == "loopend"]
        ys = [e for e in p.events if e.kind == "yield"]
        for e in p.events:
            if e.kind == "order" and e.fn != "copy":
                ck.ob("order", False, c, e.where, f"the {'search path' if stands_for(p, e.recv, X) else 'entries'} are taken in another order")
        outer = [e for e in ends if stands_for(p, e.recv, X)]
        if p.empty_iter(X):
            ck.ob("each", not ys, c, w, "a distribution is reported for an empty search path")
            continue
        if not outer:
            if isinstance(p.value, tuple) and p.value in p.st.cont:
                raise AnalysisBroken("all_distributions is not a generator")
            ck.ob("order", False, c, w, f"the search path is not looked through ({p.cond_text(4)})")
            continue
        E = ("elem", outer[-1].recv, 0)
        els = [x for x in (E, ("elem", X, 0))]
        ck.ob("order", all(e.fn == "exhausted" for e in outer), c, outer[-1].where, "the search stops before the end of the search path")
        lists = [e for e in ends if listing_of(e.recv) is not None]
        failed = [e for e in p.events if e.kind == "handler" and e.args and e.args[0][0] == "exc"]
        read = [e for e in p.events if e.kind == "call" and listing_of(e.ret) is not None]
        if not read:
            ck.ob("order", False, c, w, f"an entry of the search path is not read ({p.cond_text(4)})")
            continue
        for e in read:
            d = listing_of(e.ret)
            ck.ob("order", any(y in els for y in walk(d)), c, e.where, f"{pretty(d)} is read instead of the entry of the search path")
        L = read[-1].ret
        bad = [e for e in failed if isinstance(e.args[0][2], tuple) and e.args[0][2] and e.args[0][2][0] in ("os.listdir", "os.scandir", ".iterdir", ".glob")]
        if bad:
            ck.ob("skip", not ys, c, bad[0].where, "something is reported for an entry that cannot be read")
            continue
        inner = [e for e in lists if e.recv == L or stands_for(p, e.recv, L)]
        if not inner:
            if p.empty_iter(L) or any(p.empty_iter(e.recv) for e in inner) or p.fact("nonempty", L) is False:
                ck.ob("each", not ys, c, w, "a distribution is reported for an empty entry")
            else:
                ck.ob("order", False, c, w, f"the names in an entry are not looked through ({p.cond_text(4)})")
            continue
        ck.ob("order", all(e.fn == "exhausted" for e in inner), c, inner[-1].where, "the names in an entry are not all looked at")
        x = ("elem", inner[-1].recv, 0)
        xs = (x, ("elem", L, 0))
        mark = True if only_marked(L) else next((v for v in (about_marker(p, y) for y in xs) if v is not None), None)
        if mark is False:
            ck.ob("each", not ys and not any(e.kind == "call" and made(e.ret) for e in p.events), c, w, "a name without the .dist-info mark is taken for a distribution")
            continue
        if mark is None:
            ck.ob("each", not ys, c, w, f"a name is taken for a distribution whatever its ending ({p.cond_text(4)})") if ys else \
                ck.ob("each", False, c, w, f"a name is passed over whatever its ending ({p.cond_text(4)})")
            continue
        unread = [e for e in failed if isinstance(e.args[0][2], tuple) and e.args[0][2] and e.args[0][2][0] == "create_distribution"]
        if unread:
            ck.ob("skip", not ys, c, unread[0].where, "something is reported for a distribution that cannot be read")
            continue
        if not ys and any(not_a_dir(p, y) for y in xs):
            ck.ob("skip", True, c, w, "")
            continue
        if not ys and any(k[0] == "isinst" and k[2] == "None" and val and cache_key(p, k[1]) is not None for k, val in p.st.facts.items()):
            continue        # nothing but distributions is remembered, or a failure is
        if len(ys) != 1:
            ck.ob("each", False, c, ys[1].where if ys else w, f"a distribution is reported {len(ys)} times ({p.cond_text(5)})")
            continue
        y = ys[0]
        v = y.args[0]
        name, key = made(v), cache_key(p, v)
        subject = name if name is not None else key
        if subject is None:
            ck.ob("each", False, c, y.where, f"{pretty(v)} is reported instead of the distribution")
            continue
        ok = places(subject, xs, els, L)
        ck.ob("each", ok, c, y.where, f"the distribution is looked up by {pretty(subject)}, which is not the place of the .dist-info directory")
        if name is None:
            ck.ob("one", True, c, y.where, "")
            continue
        if memo(ck.repo, {e.fn for e in p.events if e.kind == "call"} | {"create_distribution"} | {k for k in p.st.facts if isinstance(k, str)} | ck_inlined(ck)):
            ck.ob("one", True, c, y.where, "")
            continue
        sets = [e for e in p.events if e.kind in ("dset", "mut") and e.recv is not None and e.recv[0] == "glob" and e.idx < y.idx and made(list(e.args)[-1] if e.args else None) == name]
        ck.ob("one", bool(sets) and any(e.args[0] == name or same(p, e.args[0], name) or places(e.args[0], xs, els, L) for e in sets), c, y.where, "a new distribution is handed out without being remembered under its place")
        tabs = {e.recv for e in sets}
        seen = [e for e in p.events if e.kind == "handler" and e.args and e.args[0][1] == "KeyError"] or \
            [e for e in sets if dict(e.kw).get("was") == FALSE] or \
            [k for k, val in p.st.facts.items() if k[0] == "isinst" and k[2] == "None" and val and k[1][0] == "item" and k[1][1] in tabs] or \
            [t for t in p.st.types if cache_key(p, t) is not None and t[1] in tabs] or \
            [k for k, val in p.st.facts.items() if val is False and any(z and z[0] == "call" and z[1] == ".get" and z[2] and z[2][0] in tabs for z in walk(k))]
        ck.ob("one", bool(seen), c, y.where, "a distribution is made anew without looking whether there is one already")
    ck.instances("order", 6)
    ck.instances("each", 4)
    ck.instances("one", 2)
    ck.instances("skip", 2)


def ck_inlined(ck):
    return {f.split(":")[-1] for f in ck.functions}


def places(k, xs, els, L):
    """Does k determine the directory and the name? (The paths of iterdir and scandir do by themselves.)"""
    ps = parts_of(k, xs, True)
    full = any(y and y[0] in ("call", "m") and y[1].split(".")[-1] in ("iterdir", "glob") for y in walk(L))
    if any(y and y[0] in ("call", "m") and y[1].split(".")[-1] == "scandir" for y in walk(L)):
        full = any(z[0] == "attr" and z[2] == "path" and z[1] in xs for z in ps if len(z) == 3) or any(z and z[0] == "call" and z[1] == "os.fspath" for z in ps)
    if full and any(z and z[0] == "attr" and z[1] in xs and z[2] in ("name", "stem") for z in ps):
        full = False
    return any(z in xs for z in ps) and (full or any(z in els for z in ps))


def C20(ck):
    all_rule(ck)
    metadata_rule(ck)
    R = ck.rule
    R("file", "lookup by file gives the first distribution whose record has the file, otherwise none")
    R("name", "lookup by name gives the first distribution of that name, otherwise none")
    first_rule(ck, "file", "distribution_for_file", "filename")
    first_rule(ck, "name", "distribution_named", "name")
    contains_rule(ck, "file")
    ck.assumptions.append("unreadable means OSError, or that create_distribution refuses the content; the order inside one directory is the order of the operating system")


def first_rule(ck, rule, fn, arg):
    fi = ck.repo.func(f"_distributions:{fn}")
    if fi is None:
        raise AnalysisBroken(f"{fn} not found")
    eng = ck.engine(opaque={"all_distributions"}, raise_only=set())
    want = ("sym", arg)

    def match(p, x):
        for k, v in p.st.facts.items():
            if rule == "file" and k[0] == "truth" and k[1][0] == "call" and k[1][1] == ".contains_file" and k[1][2][0] == x and len(k[1][2]) == 2 and whole(k[1][2][1], want):
                return v
            if rule == "file" and k[0] == "in" and k[2] == ("attr", x, "files") and whole(k[1], want):
                return v
            if rule == "name" and k[0] == "eq" and {k[1], k[2]} == {("attr", x, "name"), want}:
                return v
        if rule == "name":
            d = p.st.dom.get(("attr", x, "name"))
            if d is not None and want in d[1] and (d[0] == "notin" or len(d[1]) == 1):
                return d[0] == "in"
        return None
    for p in ck.run(eng, fi):
        w, c = p.where(), fn
        if p.kind == "raise":
            ck.ob(rule, False, c, w, f"{p.value[1]} is raised when nothing is found")
            continue
        for e in p.events:
            if e.kind == "order" and e.fn != "copy":
                ck.ob(rule, False, c, e.where, "the distributions are tried in another order")
        cs = [e for e in p.events if e.kind == "call" and e.fn == "all_distributions"]
        if not cs:
            ck.ob(rule, False, c, w, f"{'an answer' if p.value != NONE else 'none'} is given without looking through the distributions ({p.cond_text(3)})")
            continue
        a = cs[-1].arg("path", 0)
        ck.ob(rule, a == ("sym", "path"), c, cs[-1].where, f"the distributions on {pretty(a) if a else 'the default path'} are looked through instead of those on the path given")
        L = cs[-1].ret
        v = p.value
        ends = [e for e in p.events if e.kind == "loopend" and e.recv is not None and any(y == L for y in walk(e.recv))]
        if v == NONE:
            x = ("elem", L, 0)
            none_left = p.empty_iter(L) or all(e.fn == "exhausted" for e in ends) and match(p, x) is False
            if not ends and not p.empty_iter(L):
                none_left = any(k[0] == "nonempty" and val is False and any(y == L for y in walk(k)) for k, val in p.st.facts.items())
            ck.ob(rule, none_left, c, w, f"none is given although there may be a match ({p.cond_text(4)})")
            continue
        x = v
        if not (x[0] == "elem" and x[1] == L):
            if x in p.st.types or any(y == L for y in walk(x)):
                x = next((y for y in walk(v) if y and y[0] == "elem" and y[1] == L), v)
        ck.ob(rule, x == v and v[0] == "elem" and v[1] == L, c, w, f"{pretty(v)} is given, which is not one of the distributions looked through")
        ck.ob(rule, match(p, x) is True, c, w, f"a distribution is given that does not match ({p.cond_text(4)})")
        ck.ob(rule, all(e.fn != "exhausted" for e in ends), c, w, "a later match replaces the first one")
    ck.instances(rule, 4)


def contains_rule(ck, rule):
    fi = next((c.methods.get("contains_file") for c in ck.repo.classes.values() if c.name == "PyPIDistribution"), None)
    if fi is None:
        return
    for p in ck.run(ck.engine(raise_only=set()), fi):
        v = p.value
        if p.kind == "raise":
            ck.ob(rule, False, "contains_file", p.where(), f"{p.value[1]} is raised")
            continue
        for k, val in p.st.facts.items():
            if k[0] == "in" and k[2] == ("attr", ("sym", "self"), "files") and whole(k[1], ("sym", "filename")):
                v = v == TRUE if v in (TRUE, FALSE) and is_const(v) else v
                ck.ob(rule, v == val, "contains_file", p.where(), "the answer differs from the record")
                break
        else:
            ok = v[0] == "in" and v[2] == ("attr", ("sym", "self"), "files") and whole(v[1], ("sym", "filename"))
            ck.ob(rule, ok, "contains_file", p.where(), "the answer does not depend on whether the record has the file")


def whole(t, want):
    """Is t the file name given, as a string?"""
    if t == want:
        return True
    if t[0] == "str":
        return t[1] == want
    return t[0] == "call" and t[1] in ("os.fspath", "str", "os.fsdecode", "pathlib.Path", "pathlib.PurePath") and len(t[2]) == 1 and whole(t[2][0], want)


# ---------------------------------------------------------------------------- records
EXTS = [".cpython-312-x86_64-linux-gnu.so", ".abi3.so", ".so"]
LINES = [
    # shape, record line, path below the installation directory (or None: as given), import name
    ("module", "single.py,sha256=aa,10", None, "single"),
    ("module in package", "pkg/mod.py,sha256=aa,10", None, "pkg.mod"),
    ("package", "pkg/__init__.py,sha256=aa,10", None, "pkg"),
    ("nested package", "a/b/c/__init__.py,,", None, "a.b.c"),
    ("nested module", "a/b/c/d.py,,", None, "a.b.c.d"),
    ("bytecode", "mod.pyc,,", None, "mod"),
    ("bytecode package", "pkg/__init__.pyc,,", None, "pkg"),
    ("extension", "ext.cpython-312-x86_64-linux-gnu.so,,", None, "ext"),
    ("stable extension", "pkg/ext.abi3.so,,", None, "pkg.ext"),
    ("plain extension", "pkg/x.so,,", None, "pkg.x"),
    ("extension package", "pkg/__init__.cpython-312-x86_64-linux-gnu.so,,", None, "pkg"),
    ("name ending like init", "pkg/my__init__.py,,", None, "pkg.my__init__"),
    ("cached bytecode", "pkg/__pycache__/mod.cpython-312.pyc,,", None, None),
    ("top cached bytecode", "__pycache__/single.cpython-312.pyc,,", None, None),
    ("cached extension", "pkg/__pycache__/x.so,,", None, None),
    ("directory like cache", "my__pycache__/y.py,,", None, "my__pycache__.y"),
    ("directory like cache below", "pkg/__pycache__x/y.py,,", None, "pkg.__pycache__x.y"),
    ("data", "pkg/data.txt,,", None, None),
    ("no suffix", "pkg/LICENSE,,", None, None),
    ("stub", "pkg/x.pyi,,", None, None),
    ("suffix inside", "pkg/x.py.txt,,", None, None),
    ("metadata", "pkg-1.0.dist-info/METADATA,sha256=aa,7", None, None),
    ("no hash", "pkg-1.0.dist-info/RECORD,,", None, None),
    ("script outside", "../../bin/tool.py,,", "../../bin/tool.py", None),
    ("data outside", "../../share/x.txt,,", "../../share/x.txt", None),
    ("absolute", "/opt/abs/x.py,,", "/opt/abs/x.py", None),
    ("absolute data", "/opt/abs/x.txt,,", "/opt/abs/x.txt", None),
    ("not normal", "pkg/sub/../y.txt,,", "pkg/y.txt", None),
    ("quoted", '"pkg/a,b.py",sha256=aa,1', "pkg/a,b.py", "pkg.a,b"),
    ("quoted data", '"pkg/a,b.txt",,', "pkg/a,b.txt", None),
    ("doubled quote", '"pkg/q""uote.txt",,', 'pkg/q"uote.txt', None),
    ("comma without quotes", "pkg/c,d.txt,sha256=aa,3", "pkg/c,d.txt", None),
    ("space", "pkg/with space.txt,,", None, None),
    ("hidden", "pkg/._mod.py,,", None, None),
    ("hidden at the top", "._mod.py,,", None, None),
    ("hidden package", "pkg/.x/__init__.py,,", None, None),
    ("hidden directory", ".x/pkg/mod.py,,", None, None),
    ("empty component", "pkg/a..so,,", None, None),
    ("quoted, ends with a quote", '"data/a ""b""",,', 'data/a "b"', None),
    ("quoted, starts with a quote", '"""a"" b.txt",,', '"a" b.txt', None),
    ("quoted, two quotes", '"data/a""""b.txt",,', 'data/a""b.txt', None),
]


def more_lines():
    """Every combination of place, stem, suffix, quoting and what follows the name; for the thorough tier."""
    for d, stem, sfx, quoted in itertools.product(
            ("", "pkg/", "a/b/c/", "__pycache__/", "pkg/__pycache__/", "pkg/__pycache__/deep/", "x__pycache__/", "../", "../../lib/", "/opt/", ".hid/", "pkg/.hid/", "pkg/./", "pkg/../q/"),
            ("mod", "__init__", "my__init__", "__init__x", "._h", "x y", "c,d", 'q"t', "_", "__pycache__"),
            (".py", ".pyc", *EXTS, ".pyi", ".txt", "", ".py.txt", ".pyd", ".PY", "py"), (False, True)):
        tail = ",sha256=a_-Z,10" if quoted or stem == "c,d" else ",,"
        if not d and stem == "__init__" or not quoted and stem == "q\"t":
            continue
        if "/." in "/" + d and (d.startswith("pkg/./") or d.startswith("pkg/../")) and sfx != ".txt":
            continue  # such names are not written for modules
        rel = d + stem + sfx
        line = ('"' + rel.replace('"', '""') + '"' if quoted else rel) + tail
        name = None
        if not d.startswith(("../", "/")) and "__pycache__" not in d.split("/")[:-1]:
            match = [x for x in (".py", ".pyc", *EXTS) if rel.endswith(x)]
            if match:
                parts = rel[:-len(match[0])].split("/")
                if parts[-1] == "__init__":
                    parts.pop()
                parts = ".".join(parts).split(".")
                name = ".".join(parts) if all(parts) else None
        yield f"{d or 'top'} {stem} {sfx or 'no suffix'}", line, rel, name


DIRS = [("/usr/lib/site/pkg-1.0.dist-info", "/usr/lib/site"), ("lib/site/pkg-1.0.dist-info", "/cwd/lib/site")]


def record_of(L):
    """Is L the lines of the RECORD file? How are they handed out?"""
    if L is None or not any(y and y[0] == "c" and isinstance(y[2], str) and y[2].split("/")[-1] == "RECORD" for y in walk(L)):
        return None
    if any(y and y[0] == "elem" and isinstance(y[1], tuple) and record_of(y[1]) for y in walk(L)):
        return None  # part of a line
    names = {y[1].split(".")[-1] for y in walk(L) if y and y[0] in ("call", "m")}
    if "reader" in names:
        return "csv"
    if "splitlines" in names or "split" in names:
        return "bare"
    return "line"


def raw_record(L):
    """Are the lines bytes?"""
    return any(y and y[0] == "call" and isinstance(y[1], str) and y[1].split(".")[-1] == "open" and
               any(x[0] == "c" and x[1] == "str" and x[2] in ("rb", "br") for a in (y[2], y[3]) for x in walk(a) if len(x) == 3 and x[0] == "c") for y in walk(L))


def expected(line, rel, name, base):
    import posixpath
    if rel is None:
        rel = line.split(",")[0]
    f = posixpath.normpath(posixpath.join(base, rel))
    return {f}, ({name} if name else set())


def contributed(p, V, t, L):
    """Values the line adds to a collection; raises Unknown."""
    out = set()
    kept = False
    for i in p.st.cont[t]:
        if i.mode == "seg" and i.val and i.val[0] == "prev":
            kept = True
            continue
        if L in i.loops or any(any(y == ("elem", L, 0) for y in walk(x)) for x in (i.val,)):
            kept = kept or L in i.loops and not any(e.kind == "loopend" and e.recv == L for e in p.events)
        ok = True
        for kind, key, val in i.conds:
            r = V.fact(key) if kind == "fact" else None
            if kind == "dom":
                try:
                    r = (V.ev(key) in [V.ev(c) for c in val[1]]) == (val[0] == "in")
                    val = True
                except Unknown:
                    r = None
            if kind == "type":
                continue
            if r is None:
                raise Unknown(key)
            if bool(r) != val:
                ok = False
        if not ok:
            continue
        if i.mode == "item":
            out.add(V.ev(i.val))
        else:
            out.update(V.ev(i.val))
    return out, kept


def chosen(p, env, elems):
    """The environments in which each of the elements is one of those of its collection."""
    for y in elems:
        if any(z != y and any(w == z for w in walk(y)) for z in elems):
            continue  # depends on another one
        c = Values(p, env).get(y[1])
        rest = [z for z in elems if z != y]
        if not isinstance(c, (list, tuple)):
            break
        for v in c:
            yield from chosen(p, {**env, y: v}, rest)
        return
    yield env


def verdict(p, env, quant, every, about):
    """Can the path be taken? True, False, or None (not known), and values to go on with."""
    for y in quant:
        if any(z != y and any(w == z for w in walk(y)) for z in quant):
            continue
        V = Values(p, env)
        c = V.get(y[1])
        rest = [z for z in quant if z != y]
        if not isinstance(c, (list, tuple)):
            return None, V
        rs = [verdict(p, {**env, y: v}, rest, every, about) for v in c]
        hs = [h for h, _ in rs]
        if y in every:
            h = False if False in hs else None if None in hs else True
        else:
            h = True if True in hs else None if None in hs else False
        V = next((v for k, v in rs if k is h), V)
        return h, V
    V = Values(p, env)
    return V.holds({about}), V


def C21(ck):
    R = ck.rule
    R("lines", "every line of the record is read, whatever it says")
    R("files", "every recorded file is listed by its normalised absolute path")
    R("names", "the import names are those of the Python and extension files inside the installation directory")
    R("locale", "a record is decoded as UTF-8 in every locale")
    R("keep", "what one line adds is kept when the next is read")
    fi = ck.repo.func("_distributions:create_distribution")
    if fi is None:
        raise AnalysisBroken("create_distribution not found")
    eng = ck.engine(raise_only=set())
    where = fi.module.path
    paths = []
    for p in ck.run(eng, fi):
        if p.kind == "raise":
            continue
        for e, mode, enc, err in text_reads(p):
            if any(x == ("c", "str", "RECORD") for a in (list(e.args.values()) if isinstance(e.args, dict) else list(e.args)) + [e.recv or ()] for x in walk(a)):
                ck.ob("locale", isinstance(enc, str) and enc.lower().replace("_", "-").replace("utf8", "utf-8") in ("utf-8", "utf-8-sig"), "create_distribution", e.where,
                      "the names in a record depend on the locale" if enc is None else f"a record is decoded as {enc}")
        v = p.value
        if not (v and v[0] == "rec" and v[1] == "PyPIDistribution"):
            ck.ob("files", False, "create_distribution", p.where(), f"{pretty(v)} is given instead of a distribution")
            continue
        f = dict(v[2])
        ends = [e for e in p.events if e.kind == "loopend" and record_of(e.recv)]
        Ls = {y[1] for x in [f.get("files"), f.get("import_names")] if x in p.st.cont for i in p.st.cont[x] for y in walk((i.val, i.loops)) if y and y[0] == "elem" and record_of(y[1])} | \
            {e.recv for e in ends} | {y[1] for k in p.st.facts for y in walk(k) if y and y[0] == "elem" and isinstance(y[1], tuple) and record_of(y[1])}
        if not Ls:
            if not any(k[0] == "nonempty" and val is False and record_of(k[1]) for k, val in p.st.facts.items()):
                ck.ob("lines", False, "create_distribution", p.where(), f"the record is not read ({p.cond_text(4)})")
            continue
        for e in ends:
            ck.ob("lines", e.fn == "exhausted", "create_distribution", e.where, f"reading the record stops early ({p.cond_text(8)})")
        L = sorted(Ls, key=repr)[0]
        for x in ("files", "import_names"):
            if f.get(x) not in p.st.cont:
                raise AnalysisBroken(f"the {x} of a distribution are not a collection made by create_distribution")
        paths.append((p, L, f, ends))
    if not paths:
        raise AnalysisBroken("no path of create_distribution reads the record")
    undecided, unsure = 0, set()
    lines = LINES + (list(more_lines()) if ck.tier == "thorough" else [])
    for (shape, line, rel, name), (df, base) in [(x, d) for n, x in enumerate(lines) for d in DIRS if n < len(LINES) or d == DIRS[n % 2]]:
        want_f, want_n = expected(line, rel, name, base)
        sure, maybe = [], []
        for p, L, f, ends in paths:
            form = record_of(L)
            val = (line + "\n").encode() if form == "line" and raw_record(L) else line + "\n" if form == "line" else line if form == "bare" else next(csv.reader([line]))
            env = {("elem", L, 0): val, ("sym", "distribution_file"): df, ("ext", "importlib.machinery.EXTENSION_SUFFIXES"): list(EXTS),
                   ("ext", "importlib.machinery.SOURCE_SUFFIXES"): [".py"], ("ext", "importlib.machinery.BYTECODE_SUFFIXES"): [".pyc"],
                   ("call", "importlib.machinery.all_suffixes", (), (), 0): [".py", ".pyc"] + EXTS}
            for e in p.events:
                if e.kind == "order" and e.recv is not None and ("ext", "importlib.machinery.EXTENSION_SUFFIXES") in walk(e.recv):
                    x = ("ext", "importlib.machinery.EXTENSION_SUFFIXES")
                    env[x] = env[x][::-1] if e.fn == "reversed" else sorted(env[x]) if e.fn != "copy" else env[x]
            V0 = Values(p, env)
            others = sorted({y for k in list(p.st.facts) + list(p.st.dom) + [i.val for x in ("files", "import_names") for i in p.st.cont[f[x]]] + [i.conds for x in ("files", "import_names") for i in p.st.cont[f[x]]]
                             for y in walk(k) if y and y[0] == "elem" and len(y) == 3 and isinstance(y[1], tuple) and y[1] != L}, key=repr)
            brk = {e.recv for e in p.events if e.kind == "loopend" and e.fn != "exhausted" and not record_of(e.recv)}
            every = {("elem", e.recv, 0) for e in p.events if e.kind == "loopend" and e.fn == "exhausted" and ("quantifier", TRUE) in e.kw}
            some = {("elem", e.recv, 0) for e in p.events if e.kind == "quantified"}
            free = [y for y in others if y not in every and y not in some]
            quant = [y for y in others if y in every or y in some]
            fs, ns, hit, certain, keep = set(), set(), False, True, True
            allm = []
            choices = list(chosen(p, env, free))
            for at, e1 in enumerate(choices):
                # the elements of an `all` are all like this, of those of an `any` one is
                h, V = verdict(p, e1, quant, every, ("elem", L, 0))
                allm.append(h)
                if h is False or hit and brk:
                    continue
                try:
                    a, k1 = contributed(p, V, f["files"], L)
                    b, k2 = contributed(p, V, f["import_names"], L)
                except Unknown:
                    h, a, b, k1, k2 = None, set(), set(), True, True
                    certain = False
                certain = certain and h is True
                if not hit:
                    first = at
                hit = True
                keep = keep and k1 and k2
                fs |= a
                ns |= b
            if not hit:
                continue
            # a loop over the suffixes that ran to its end without adding anything has seen no suffix that fits
            if free and not brk and False in allm and not ns and len(allm) > 1:
                continue
            (sure if certain else maybe).append((fs, ns, p, keep, first if brk and free else None))
        # a loop that stops at the first suffix that fits never gets to a later one
        stops = [x[4] for x in sure if x[4] is not None]
        sure = [x[:4] for x in sure if x[4] is None or x[4] == min(stops)]
        for fs, ns, p, keep in sure:
            where = p.where()
            ck.ob("files", fs == want_f, f"create_distribution/{shape}", where, f"the record line {line!r} lists {sorted(fs) or 'nothing'} instead of {sorted(want_f)}")
            ck.ob("names", ns == want_n, f"create_distribution/{shape}", where, f"the record line {line!r} gives the import names {sorted(ns)} instead of {sorted(want_n)}")
            ck.ob("keep", keep, "create_distribution", where, "what earlier lines added is lost")
        if not sure:
            undecided += 1
            unsure.add(shape)
    ck.notes.append(f"{len(lines)} line shapes, {undecided} undecided{": " + ", ".join(sorted(unsure)) if unsure else ""}")
    if undecided > len(lines) * 0.5:
        raise AnalysisBroken("most record line shapes could not be decided")
    ck.instances("files", 20)
    ck.assumptions.append("EXTENSION_SUFFIXES is that of CPython 3.12 on Linux; the record line shapes listed in sa/rules/dists.py stand for all lines; names contain no line separators")
