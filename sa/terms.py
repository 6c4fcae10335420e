"""Abstract values of the analysis: immutable nested tuples ("terms") and their normal forms."""


def C(v):
    return ("c", type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def is_const(t):
    return t[0] == "c"


def constlike(t):
    return t[0] in ("c", "enum", "cls", "func", "mod") or t[0] == "ext"


def const_val(t):
    return t[2]


def is_str_const(t):
    return t[0] == "c" and t[1] == "str"


def is_int_const(t):
    return t[0] == "c" and t[1] in ("int", "bool")


def cat(parts):
    """Normalised string concatenation."""
    out = []
    for p in parts:
        if p[0] == "cat":
            sub = p[1]
        else:
            sub = (p,)
        for q in sub:
            if q[0] == "c" and q[1] != "str":
                q = C(str(q[2]))
            if is_str_const(q):
                if q[2] == "":
                    continue
                if out and is_str_const(out[-1]):
                    out[-1] = C(out[-1][2] + q[2])
                    continue
            out.append(q)
    if not out:
        return C("")
    if len(out) == 1:
        return out[0]
    # joining converts: str(x) + "." is f"{x}."
    return ("cat", tuple(q[1] if q[0] == "str" else q for q in out))


def cat_parts(t):
    return t[1] if t[0] == "cat" else (t,)


# -- integers: ('lin', const, ((term, coef), ...)) ------------------------------
def to_lin(t):
    if is_int_const(t):
        return int(t[2]), {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, coefs):
    coefs = {k: v for k, v in coefs.items() if v}
    if not coefs:
        return C(c)
    if c == 0 and len(coefs) == 1:
        (k, v), = coefs.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(coefs.items(), key=repr)))


def lin_add(a, b, sign=1):
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sign * v
    return mk_lin(ca + sign * cb, d)


def lin_scale(a, n):
    ca, da = to_lin(a)
    return mk_lin(ca * n, {k: v * n for k, v in da.items()})


def walk(t):
    """All subterms of a term (terms are tuples; strings and ints inside are leaves)."""
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            yield x
            todo.extend(x)
        elif isinstance(x, frozenset):
            todo.extend(x)


def mentions(t, sub):
    return any(x == sub for x in walk(t))


def subst(t, m):
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        return tuple(subst(x, m) for x in t)
    return t


def pretty(t, depth=6):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth <= 0:
        return "…"
    k = t[0]
    P = lambda x: pretty(x, depth - 1)  # noqa: E731
    try:
        if k == "c":
            return repr(t[2])
        if k in ("sym",):
            return str(t[1])
        if k == "attr":
            return f"{P(t[1])}.{t[2]}"
        if k == "item":
            return f"{P(t[1])}[{P(t[2])}]"
        if k == "cat":
            return "f'" + "".join(x[2] if is_str_const(x) else "{" + P(x) + "}" for x in t[1]) + "'"
        if k == "tup":
            return "(" + ", ".join(P(x) for x in t[1]) + ")"
        if k == "call":
            return f"{t[1]}({', '.join([P(x) for x in t[2]] + [f'{a}={P(b)}' for a, b in t[3]])})" + (f"#{t[4]}" if t[4] else "")
        if k == "m":
            return f"{P(t[2])}.{t[1]}({', '.join(P(x) for x in t[3])})"
        if k == "elem":
            return f"each({P(t[1])})" + (f"'{t[2]}" if t[2] else "")
        if k == "rec":
            return f"{t[1]}({', '.join(f'{a}={P(b)}' for a, b in t[2])})"
        if k == "obj":
            return f"<{t[2]}#{t[1]}>"
        if k == "coll":
            return f"{t[1]}{{" + ", ".join(f"{m}:{P(v)}" for m, v, *_ in t[2]) + "}"
        if k == "node":
            return f"{t[1]}({', '.join(f'{a}={P(b)}' for a, b in t[3])})"
        if k == "ext":
            return t[1]
        if k in ("cls", "func"):
            return str(t[1])
        if k == "lin":
            return "(" + " + ".join([str(t[1])] * bool(t[1]) + [(f"{n}*" if n != 1 else "") + P(x) for x, n in t[2]]) + ")"
        if k == "enum":
            return f"{t[1]}.{t[2]}"
        if k == "bm":
            return f"{P(t[1])}.{t[2].split('.')[-1]}"
        if k == "exc":
            return f"<{t[1]}>"
        if k == "glob":
            return t[1].split(":")[-1]
        if k in ("isinst", "in", "eq", "is"):
            return f"{k}({P(t[1])}, {P(t[2]) if isinstance(t[2], tuple) else t[2]})"
        if k == "truth":
            return f"bool({P(t[1])})"
        return f"{k}<" + ", ".join(P(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ">"
    except (IndexError, TypeError, ValueError):
        return repr(t)
