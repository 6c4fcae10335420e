"""Renamed functions, classes and parameters get the names the rules know back (alpha conversion).

The rules name a few places of the package.  sa/names.json holds the names, parameters and the
identifiers used in the body of every function and class at the time the rules were written.  When
one of them is gone and a new one with much the same body is there, the new name is replaced by the
old one everywhere, which changes no behaviour; what the function does is then judged as usual.
"""
import ast
import json
import os
from collections import Counter

FILE = os.path.join(os.path.dirname(__file__), "names.json")
DEFS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)


def defs(tree):
    """{dotted path: node} of the functions and classes of a module, methods included."""
    out = {}

    def go(body, head):
        for s in body:
            if isinstance(s, DEFS):
                out[head + s.name] = s
                if isinstance(s, ast.ClassDef):
                    go(s.body, head + s.name + ".")
            else:
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(s, f, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                        go(b, head)
    go(tree.body, "")
    return out


def params(n):
    if isinstance(n, ast.ClassDef):
        return None
    a = n.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def bag(n):
    c = Counter()
    for x in ast.walk(n):
        if isinstance(x, ast.Name):
            c[x.id] += 1
        elif isinstance(x, ast.Attribute):
            c["." + x.attr] += 1
        elif isinstance(x, ast.Constant) and isinstance(x.value, (str, int)) and len(str(x.value)) < 40:
            c[repr(x.value)] += 1
        elif isinstance(x, ast.stmt):
            c["<" + type(x).__name__ + ">"] += 1
    return c


def describe(trees):
    return {m: {q: [params(n), bag(n)] for q, n in defs(t).items()} for m, t in trees.items()}


def likeness(a, b):
    n = max(sum(a.values()), sum(b.values()))
    return sum((a & b).values()) / n if n else 0


def rename_everywhere(trees, old, new):
    for t in trees.values():
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and n.id == old:
                n.id = new
            elif isinstance(n, ast.Attribute) and n.attr == old:
                n.attr = new
            elif isinstance(n, DEFS) and n.name == old:
                n.name = new
            elif isinstance(n, (ast.arg, ast.keyword)) and n.arg == old:
                n.arg = new
            elif isinstance(n, ast.alias):
                if n.name == old:
                    n.name = new
                if n.asname == old:
                    n.asname = new


def mentioned(trees, name):
    for t in trees.values():
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and n.id == name or isinstance(n, ast.Attribute) and n.attr == name or isinstance(n, DEFS) and n.name == name \
                    or isinstance(n, (ast.arg, ast.keyword)) and n.arg == name or isinstance(n, ast.alias) and name in (n.name, n.asname):
                return True
    return False


def align(trees):
    """Rename in place; returns the list of (module, new name, old name)."""
    try:
        with open(FILE) as fp:
            base = json.load(fp)
    except OSError:
        return []
    done = []
    have = {m: defs(t) for m, t in trees.items()}
    everything = {q.split(".")[-1] for d in base.values() for q in d}
    # functions and classes
    for m, d in base.items():
        if m not in have:
            continue
        gone = [q for q in d if q not in have[m] and q.split(".")[0] in have[m] or "." not in q and q not in have[m]]
        for q in gone:
            head, _, last = q.rpartition(".")
            if mentioned(trees, last):
                continue
            best = None
            for q2, n in have[m].items():
                h2, _, l2 = q2.rpartition(".")
                if h2 != head or q2 in d or l2 in everything or isinstance(n, ast.ClassDef) != (d[q][0] is None):
                    continue
                if any(l2 == x.split(".")[-1] and x != q2 for y in have.values() for x in y):
                    continue
                s = likeness(bag(n), Counter(d[q][1]))
                if d[q][0] is not None and len(params(n)) != len(d[q][0]):
                    s -= 0.2
                if s >= 0.6 and (best is None or s > best[0]):
                    best = (s, l2)
            if best:
                rename_everywhere(trees, best[1], last)
                done.append((m, best[1], last))
                have = {x: defs(t) for x, t in trees.items()}
    # parameters
    for m, d in base.items():
        for q, n in have.get(m, {}).items():
            if q not in d or d[q][0] is None or isinstance(n, ast.ClassDef):
                continue
            was, now = d[q][0], params(n)
            if len(was) != len(now) or was == now:
                continue
            used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(n) if isinstance(x, ast.arg)}
            todo = {b: a for a, b in zip(was, now) if a != b and a not in now and b not in was and a not in used}
            if not todo:
                continue
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id in todo:
                    x.id = todo[x.id]
                elif isinstance(x, ast.arg) and x.arg in todo:
                    x.arg = todo[x.arg]
            last = n.name
            names = {last, q.split(".")[-2]} if last == "__init__" else {last}
            for t in trees.values():
                for x in ast.walk(t):
                    if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in names or isinstance(x.func, ast.Attribute) and x.func.attr in names
                                                    or isinstance(x.func, (ast.Name, ast.Attribute)) and ast.unparse(x.func).endswith("partial")
                                                    and x.args and ast.unparse(x.args[0]).split(".")[-1] in names):
                        for k in x.keywords:
                            if k.arg in todo:
                                k.arg = todo[k.arg]
            done += [(m, f"{q}({b})", f"{q}({a})") for b, a in todo.items()]
    return done
