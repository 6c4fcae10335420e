"""Apply behaviour-preserving rewrites to the package mechanically; every check must stay quiet.

python3 tools/rewrite.py [-f file.py] [-o func] [-k] [rewrite ...]

Each rewrite is applied at all its sites of one file (or of one function with -o) at a time.
"""
import argparse
import ast
import concurrent.futures
import copy
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
sys.path.insert(0, ROOT)
from sa.rules import available  # noqa: E402

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
RW = {}


def rewrite(fn):
    RW[fn.__name__.strip("_")] = fn
    return fn


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        if type(t.ops[0]) in m:
            return ast.Compare(t.left, [m[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def exits(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def blocks(tree):
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def walk_here(n):
    """Nodes of this function, without nested functions and classes."""
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (*FUNCS, ast.ClassDef, ast.Lambda)):
                todo.append(c)


class Fresh:
    n = 0

    def __call__(self, base="_t"):
        Fresh.n += 1
        return f"{base}{Fresh.n}"


fresh = Fresh()


def elif_of(parent, f, b):
    return isinstance(parent, ast.If) and f == "orelse" and len(b) == 1 and isinstance(b[0], ast.If)


@rewrite
def plain(fn):
    pass


@rewrite
def invert(fn):
    for n in walk_here(fn):
        if isinstance(n, ast.If) and n.orelse:
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body


@rewrite
def invert_not(fn):
    for n in walk_here(fn):
        if isinstance(n, ast.If) and n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body


@rewrite
def unchain(fn):
    """elif -> else: (statement) if"""
    for p, f, b in list(blocks(fn)):
        if elif_of(p, f, b):
            b.insert(0, ast.Pass())


@rewrite
def nest_and(fn):
    for n in walk_here(fn):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            v = n.test.values
            body = n.body
            for t in reversed(v[1:]):
                body = [ast.If(t, body, [])]
            n.test, n.body = v[0], body


@rewrite
def merge_and(fn):
    for n in walk_here(fn):
        while isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            i = n.body[0]
            n.test, n.body = ast.BoolOp(ast.And(), [n.test, i.test]), i.body


@rewrite
def split_or(fn):
    """if a or b: exit -> if a: exit; if b: exit"""
    for p, f, b in list(blocks(fn)):
        for n in list(b):
            if isinstance(n, ast.If) and not n.orelse and exits(n.body) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or) and not elif_of(p, f, b):
                i = b.index(n)
                b[i:i + 1] = [ast.If(t, copy.deepcopy(n.body), []) for t in n.test.values]


@rewrite
def guard(fn):
    """for: if c: X   ->   for: if not c: continue; X"""
    for n in walk_here(fn):
        if isinstance(n, (ast.For, ast.While)) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body[-1]
            n.body[-1:] = [ast.If(neg(i.test), [ast.Continue()], []), *i.body]


@rewrite
def unguard(fn):
    for n in walk_here(fn):
        if isinstance(n, (ast.For, ast.While)):
            for k, s in reversed(list(enumerate(n.body))):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and n.body[k + 1:]:
                    n.body[k:] = [ast.If(neg(s.test), n.body[k + 1:], [])]


@rewrite
def add_else(fn):
    """if c: ... exit; rest -> if c: ... exit else: rest"""
    for p, f, b in reversed(list(blocks(fn))):
        for k, s in reversed(list(enumerate(b))):
            if isinstance(s, ast.If) and not s.orelse and exits(s.body) and b[k + 1:] and not isinstance(p, ast.Module):
                s.orelse = b[k + 1:]
                del b[k + 1:]


@rewrite
def drop_else(fn):
    for p, f, b in reversed(list(blocks(fn))):
        for k, s in reversed(list(enumerate(b))):
            if isinstance(s, ast.If) and s.orelse and exits(s.body) and not elif_of(p, f, b):
                b[k + 1:k + 1] = s.orelse
                s.orelse = []


def local_names(fn):
    skip = set()
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            skip |= set(n.names)
        if isinstance(n, (*FUNCS, ast.Lambda)):
            a = n.args
            skip |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        if isinstance(n, FUNCS) and n is not fn:
            skip |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
    for n in walk_here(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out - skip


@rewrite
def rename_locals(fn):
    loc = local_names(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in loc:
            n.id += "_v"
        if isinstance(n, ast.ExceptHandler) and n.name in loc:
            n.name += "_v"


ALL_KEYWORDS = set()


@rewrite
def rename_params(fn):
    """Parameters nobody passes by keyword get other names"""
    if not ALL_KEYWORDS:
        for f in os.listdir(os.path.join(REPO, "modulegraph2")):
            if f.endswith(".py"):
                t = ast.parse(open(os.path.join(REPO, "modulegraph2", f)).read())
                ALL_KEYWORDS.update(k.arg for n in ast.walk(t) if isinstance(n, ast.Call) for k in n.keywords)
    if fn.name.startswith("__"):
        return
    if any(isinstance(n, (*FUNCS, ast.Lambda)) for n in ast.walk(fn) if n is not fn):
        return
    ps = {a.arg for a in fn.args.args + fn.args.posonlyargs if a.arg not in ALL_KEYWORDS and a.arg not in ("self", "cls")}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in ps:
            n.id += "_p"
        elif isinstance(n, ast.arg) and n.arg in ps:
            n.arg += "_p"


@rewrite
def swap_compare(fn):
    for n in walk_here(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            n.left, n.comparators = n.comparators[0], [n.left]
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            if type(n.ops[0]) in m:
                n.left, n.ops, n.comparators = n.comparators[0], [m[type(n.ops[0])]()], [n.left]


@rewrite
def not_is(fn):
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            m = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.NotEq: ast.Eq}
            if len(n.ops) == 1 and type(n.ops[0]) in m:
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m[type(n.ops[0])]()], n.comparators))
            return n
    fn.body = [T().visit(s) for s in fn.body]


@rewrite
def de_morgan(fn):
    class T(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in n.test.values]))
            return n
    fn.body = [T().visit(s) for s in fn.body]


@rewrite
def split_isinstance(fn):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple):
                return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [copy.deepcopy(n.args[0]), c], []) for c in n.args[1].elts])
            return n
    fn.body = [T().visit(s) for s in fn.body]


def has_walrus(n):
    return any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n))


def simple(e):
    return isinstance(e, (ast.Constant, ast.Name))


@rewrite
def hoist_args(fn):
    """f(g(x), y) -> t = g(x); f(t, y) for statements that are a call or assign one"""
    for p, f, b in list(blocks(fn)):
        if p is not fn and not any(p is x for x in walk_here(fn)):
            continue
        for s in list(b):
            c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            if not isinstance(c, ast.Call) or has_walrus(c) or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                continue
            if isinstance(c.func, ast.Name) and c.func.id == "super":
                continue
            r = c.func
            while isinstance(r, ast.Attribute):
                r = r.value
            if not isinstance(r, ast.Name):
                continue
            pre = []
            for k, a in enumerate(c.args):
                if not simple(a) and not isinstance(a, (ast.GeneratorExp, ast.Lambda)):
                    t = fresh()
                    pre.append(ast.Assign([name(t, ast.Store())], a))
                    c.args[k] = name(t)
            for k in c.keywords:
                if not simple(k.value) and not isinstance(k.value, (ast.GeneratorExp, ast.Lambda)):
                    t = fresh()
                    pre.append(ast.Assign([name(t, ast.Store())], k.value))
                    k.value = name(t)
            i = b.index(s)
            b[i:i] = pre


@rewrite
def hoist_test(fn):
    for p, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.If) and not elif_of(p, f, b) and not simple(s.test) and not isinstance(p, (ast.ClassDef,)):
                t = fresh("_cond")
                b.insert(b.index(s), ast.Assign([name(t, ast.Store())], s.test))
                s.test = name(t)


@rewrite
def hoist_return(fn):
    for p, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
                b.insert(b.index(s), ast.Assign([name("_result", ast.Store())], s.value))
                s.value = name("_result")


@rewrite
def hoist_iter(fn):
    for p, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.For) and not simple(s.iter):
                t = fresh("_items")
                b.insert(b.index(s), ast.Assign([name(t, ast.Store())], s.iter))
                s.iter = name(t)


def own_jumps(body, kinds):
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, kinds):
            return True
        if isinstance(x, (ast.For, ast.While)):
            todo += x.orelse
            continue
        if isinstance(x, (*FUNCS, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(x))
    return False


@rewrite
def for_next(fn):
    """for x in L: ... -> it = iter(L); while True: try: x = next(it) except StopIteration: break"""
    for p, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.For) and not s.orelse:
                t = fresh("_it")
                i = b.index(s)
                b[i:i + 1] = [
                    ast.Assign([name(t, ast.Store())], ast.Call(name("iter"), [s.iter], [])),
                    ast.While(ast.Constant(True), [
                        ast.Try([ast.Assign([s.target], ast.Call(name("next"), [name(t)], []))],
                                [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], []),
                        *s.body], [])]


@rewrite
def for_index(fn):
    """for x in L -> i = 0; while i < len(L): x = L[i]; i += 1 (only where L is a plain name or attribute)"""
    for p, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, (ast.Name, ast.Attribute)):
                t = fresh("_i")
                i = b.index(s)
                b[i:i + 1] = [
                    ast.Assign([name(t, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(name(t), [ast.Lt()], [ast.Call(name("len"), [s.iter], [])]), [
                        ast.Assign([s.target], ast.Subscript(s.iter, name(t), ast.Load())),
                        ast.AugAssign(name(t, ast.Store()), ast.Add(), ast.Constant(1)),
                        *s.body], [])]


@rewrite
def while_true(fn):
    for n in walk_here(fn):
        if isinstance(n, ast.While) and not (isinstance(n.test, ast.Constant)) and not n.orelse:
            n.body.insert(0, ast.If(neg(n.test), [ast.Break()], []))
            n.test = ast.Constant(True)


@rewrite
def comp_loop(fn):
    """x = [.. for ..] -> loop"""
    for p, f, b in list(blocks(fn)):
        for s in list(b):
            t = None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                t = s.targets[0]
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                t = s.target
            if t is None or not isinstance(s.value, (ast.ListComp, ast.SetComp)):
                continue
            c = s.value
            meth, init = ("append", ast.List([], ast.Load())) if isinstance(c, ast.ListComp) else ("add", ast.Call(name("set"), [], []))
            body = [ast.Expr(ast.Call(ast.Attribute(name(t.id), meth, ast.Load()), [c.elt], []))]
            for g in reversed(c.generators):
                for cond in reversed(g.ifs):
                    body = [ast.If(cond, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            s.value = init
            b[b.index(s) + 1:b.index(s) + 1] = body


@rewrite
def any_loop(fn):
    """if any(gen): -> flag loop (statement level only)"""
    for p, f, b in list(blocks(fn)):
        if elif_of(p, f, b):
            continue
        for s in list(b):
            if isinstance(s, ast.If) and isinstance(s.test, ast.Call) and isinstance(s.test.func, ast.Name) and s.test.func.id in ("any", "all") and isinstance(s.test.args[0], ast.GeneratorExp):
                t = fresh("_flag")
                c = s.test.args[0]
                is_any = s.test.func.id == "any"
                if len(c.generators) != 1:
                    continue
                body = [ast.If(c.elt if is_any else neg(c.elt), [ast.Assign([name(t, ast.Store())], ast.Constant(is_any)), ast.Break()], [])]
                g = c.generators[0]
                for cond in reversed(g.ifs):
                    body = [ast.If(cond, body, [])]
                i = b.index(s)
                b[i:i] = [ast.Assign([name(t, ast.Store())], ast.Constant(not is_any)), ast.For(g.target, g.iter, body, [])]
                s.test = name(t)


@rewrite
def list_comp_arg(fn):
    """any(gen) -> any([list])"""
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "set", "sorted") and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
                n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
            return n
    fn.body = [T().visit(s) for s in fn.body]


@rewrite
def ternary_if(fn):
    for p, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                v = s.value
                a, c = copy.deepcopy(s), copy.deepcopy(s)
                a.value, c.value = v.body, v.orelse
                b[b.index(s)] = ast.If(v.test, [a], [c])


@rewrite
def if_ternary(fn):
    for p, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                    and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                b[b.index(s)] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))


@rewrite
def hoist_kw_ternary(fn):
    """f(k=a if c else b) -> if c: t = a else: t = b"""
    for p, f, b in list(blocks(fn)):
        for s in list(b):
            c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            if not isinstance(c, ast.Call):
                continue
            for k in c.keywords:
                if isinstance(k.value, ast.IfExp):
                    t = fresh()
                    v = k.value
                    b.insert(b.index(s), ast.If(v.test, [ast.Assign([name(t, ast.Store())], v.body)], [ast.Assign([name(t, ast.Store())], v.orelse)]))
                    k.value = name(t)


@rewrite
def fstring_format(fn):
    class T(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            self.generic_visit(n)
            fmt, args = "", []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    fmt += v.value.replace("{", "{{").replace("}", "}}")
                else:
                    if v.format_spec is not None:
                        return n
                    fmt += "{" + ("" if v.conversion == -1 else "!" + chr(v.conversion)) + "}"
                    args.append(v.value)
            return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])
    fn.body = [T().visit(s) for s in fn.body]


@rewrite
def fstring_plus(fn):
    class T(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            self.generic_visit(n)
            if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec) for v in n.values):
                return n
            parts = [v if isinstance(v, ast.Constant) else ast.Call(name("str"), [v.value], []) for v in n.values]
            out = parts[0]
            for q in parts[1:]:
                out = ast.BinOp(out, ast.Add(), q)
            return out
    fn.body = [T().visit(s) for s in fn.body]


@rewrite
def kw_order(fn):
    for n in walk_here(fn):
        if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords):
            n.keywords.reverse()


@rewrite
def method_alias(fn):
    """Local names for self's methods"""
    if not fn.args.args or fn.args.args[0].arg != "self" or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn)):
        return
    used = {}
    for n in walk_here(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
            used.setdefault(n.func.attr, []).append(n)
    for a, ns in used.items():
        if a.startswith("__"):
            continue
        for n in ns:
            n.func = name("_m_" + a)
        k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(k, ast.Assign([name("_m_" + a, ast.Store())], ast.Attribute(name("self"), a, ast.Load())))


@rewrite
def inline_temp(fn):
    """x = e; stmt using x once right away (and nowhere else) -> stmt with e"""
    for p, f, b in list(blocks(fn)):
        for s in list(b):
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                continue
            i = b.index(s)
            if i + 1 >= len(b):
                continue
            nx = b[i + 1]
            nm = s.targets[0].id
            uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == nm]
            if len(uses) != 2:
                continue
            where = nx.test if isinstance(nx, ast.If) else nx.value if isinstance(nx, (ast.Assign, ast.Return, ast.Expr)) else nx.iter if isinstance(nx, ast.For) else None
            if where is None:
                continue
            # first thing evaluated
            inner = [n for n in ast.walk(where) if isinstance(n, ast.Name) and n.id == nm]
            if not inner or isinstance(where, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.BoolOp, ast.IfExp)):
                continue

            class T(ast.NodeTransformer):
                def visit_Name(self, n):
                    return s.value if n is inner[0] else n
            if any(isinstance(n, ast.Call) for n in ast.walk(where) if n is not where):
                continue
            new = T().visit(where)
            if isinstance(nx, ast.If):
                nx.test = new
            elif isinstance(nx, ast.For):
                nx.iter = new
            else:
                nx.value = new
            b.remove(s)


@rewrite
def no_annotations(fn):
    for p, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                i = b.index(s)
                b[i] = ast.Assign([s.target], s.value) if s.value is not None else ast.Pass()


@rewrite
def no_docs(fn):
    for n in ast.walk(fn):
        if isinstance(n, (*FUNCS, ast.ClassDef)) and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body[0:1] = [] if len(n.body) > 1 else [ast.Pass()]


@rewrite
def noop(fn):
    for p, f, b in list(blocks(fn)):
        if not elif_of(p, f, b) and not isinstance(p, ast.Module):
            k = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
            b.insert(k, ast.Assign([name("_unused", ast.Store())], ast.Constant(None)))


def free_names(stmts):
    loads, stores = set(), set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name):
                (loads if isinstance(n.ctx, ast.Load) else stores).add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                stores.add(n.name)
    return loads, stores


def extractable(stmts, fn):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, *FUNCS, ast.Lambda, ast.NamedExpr, ast.AnnAssign, ast.Delete)):
                return False
            if isinstance(n, ast.Raise) and n.exc is None:
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super":
                return False
    if own_jumps(stmts, (ast.Break, ast.Continue)):
        return False
    return True


def fn_locals(fn):
    a = fn.args
    out = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


EXTRA = []


def comp_targets(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.comprehension):
                out |= {m.id for m in ast.walk(n.target) if isinstance(m, ast.Name)}
    return out


def _extract(fn, stmts):
    """Replacement for stmts by a call of a new module level function, or None"""
    if not extractable(stmts, fn) or all(isinstance(s, ast.Pass) for s in stmts):
        return None
    loc = fn_locals(fn)
    loads, stores = free_names(stmts)
    comp = comp_targets(stmts)
    inside = {id(n) for s in stmts for n in ast.walk(s)}
    outer = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside}
    in_loop = False
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.While)) and any(m is stmts[0] for m in ast.walk(n)):
            in_loop = True
    results = sorted((stores & outer) - comp)
    # everything bound inside must be bound before use for it not to be a parameter
    first = set()
    bound = set()
    for s in stmts:
        l, st = free_names([s])
        if isinstance(s, ast.Assign) and not isinstance(s.value, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            first |= free_names([ast.Expr(s.value), *[ast.Expr(t) for t in s.targets]])[0] - bound - comp
            bound |= st
        else:
            first |= l - bound - comp
            if isinstance(s, (ast.For, ast.While, ast.If, ast.Try, ast.With)):
                pass
    if any(r not in bound for r in results):
        return None
    tgt = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.For):
                tgt |= {m.id for m in ast.walk(n.target) if isinstance(m, ast.Name)}
            if isinstance(n, ast.ExceptHandler) and n.name:
                tgt.add(n.name)
            if isinstance(n, ast.withitem) and n.optional_vars is not None:
                tgt |= {m.id for m in ast.walk(n.optional_vars) if isinstance(m, ast.Name)}
    params = sorted((first & loc) - comp - (tgt - results_all(stmts, fn)) if True else ())
    inner_bound = stores - bound - tgt - comp
    # names assigned in nested statements only: local to the helper when first assigned there; skip when unsure
    if any(n in params for n in inner_bound):
        return None
    h = fresh("_helper")
    body = list(stmts)
    if results:
        rv = name(results[0]) if len(results) == 1 else ast.Tuple([name(r) for r in results], ast.Load())
        body.append(ast.Return(rv))
    f = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in params], None, [], [], None, []), body, [], None)
    f.type_params = []
    EXTRA.append(f)
    call = ast.Call(name(h), [name(x) for x in params], [])
    if not results:
        return ast.Expr(call)
    tg = name(results[0], ast.Store()) if len(results) == 1 else ast.Tuple([name(r, ast.Store()) for r in results], ast.Store())
    return ast.Assign([tg], call)


def results_all(stmts, fn):
    return set()


@rewrite
def extract_bodies(fn):
    """Bodies of if/for/else without jumps become module level helpers"""
    if fn.name.startswith("__"):
        pass
    done = set()
    for p, f, b in list(blocks(fn)):
        if p is fn or id(p) in done or elif_of(p, f, b) or isinstance(p, (*FUNCS, ast.ClassDef)):
            continue
        if any(id(n) in done for s in b for n in ast.walk(s)):
            continue
        if any(id(s) in done for s in b):
            continue
        r = _extract(fn, b)
        if r is not None:
            for s in b:
                for n in ast.walk(s):
                    done.add(id(n))
            b[:] = [r]


@rewrite
def extract_tail(fn):
    """The end of the function (after the first half) becomes a helper whose result is returned"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn)) or len(fn.body) < 3:
        return
    k = len(fn.body) // 2
    k = max(k, 1)
    stmts = fn.body[k:]
    loc = fn_locals(fn)
    bad = (ast.Global, ast.Nonlocal, *FUNCS, ast.Lambda)
    if any(isinstance(n, bad) for s in stmts for n in ast.walk(s)):
        return
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" for s in stmts for n in ast.walk(s)):
        return
    loads, stores = free_names(stmts)
    comp = comp_targets(stmts)
    before = set()
    a = fn.args
    before |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    for s in fn.body[:k]:
        before |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
                   and not (isinstance(s, ast.AnnAssign) and s.value is None)}
    before -= comp_targets(fn.body[:k]) - {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
    for x in list(before):
        first = next((s for s in stmts if any(isinstance(n, ast.Name) and n.id == x for n in ast.walk(s))), None)
        if isinstance(first, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in first.targets) and not any(isinstance(n, ast.Name) and n.id == x for n in ast.walk(first.value)):
            before.discard(x)
    params = sorted(loads & before)
    h = fresh("_tail")
    f = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in params], None, [], [], None, []), stmts, [], None)
    f.type_params = []
    EXTRA.append(f)
    fn.body[k:] = [ast.Return(ast.Call(name(h), [name(x) for x in params], []))]


@rewrite
def extract_values(fn):
    """x = <expr> -> x = helper(free vars)"""
    loc = fn_locals(fn)
    for p, f, b in list(blocks(fn)):
        if isinstance(p, ast.ClassDef):
            continue
        for s in list(b):
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and not simple(s.value) and not has_walrus(s.value) \
                    and not any(isinstance(n, (ast.Lambda,)) for n in ast.walk(s.value)) \
                    and not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" for n in ast.walk(s.value)):
                loads, _ = free_names([ast.Expr(s.value)])
                params = sorted((loads & loc) - comp_targets([s]))
                h = fresh("_value")
                g = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in params], None, [], [], None, []), [ast.Return(s.value)], [], None)
                g.type_params = []
                EXTRA.append(g)
                s.value = ast.Call(name(h), [name(x) for x in params], [])


@rewrite
def extract_tests(fn):
    loc = fn_locals(fn)
    for n in list(walk_here(fn)):
        if isinstance(n, ast.If) and not simple(n.test):
            loads, _ = free_names([ast.Expr(n.test)])
            params = sorted((loads & loc) - comp_targets([ast.Expr(n.test)]))
            h = fresh("_test")
            g = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in params], None, [], [], None, []), [ast.Return(n.test)], [], None)
            g.type_params = []
            EXTRA.append(g)
            n.test = ast.Call(name(h), [name(x) for x in params], [])


@rewrite
def swap_init(fn):
    """Adjacent independent assignments of fresh values change places"""
    def pure(e):
        return isinstance(e, ast.Constant) or isinstance(e, (ast.List, ast.Tuple)) and not e.elts or isinstance(e, ast.Dict) and not e.keys or \
            isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "list", "dict") and not e.args

    def target(s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            t = s.target
        else:
            return None
        return ast.dump(t) if pure(s.value) else None
    for p, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            x, y = target(b[i]), target(b[i + 1])
            if x and y and x != y:
                b[i], b[i + 1] = b[i + 1], b[i]
                i += 1
            i += 1


@rewrite
def try_else(fn):
    """try: a; b except -> with only the first statement... (return moved to else)"""
    for n in walk_here(fn):
        if isinstance(n, ast.Try) and not n.orelse and not n.finalbody and len(n.body) > 1 and isinstance(n.body[-1], ast.Return) and (n.body[-1].value is None or simple(n.body[-1].value)):
            n.orelse = [n.body.pop()]


@rewrite
def aug_plain(fn):
    class T(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.op, ast.BitOr) and isinstance(n.target, ast.Name):
                return ast.Expr(ast.Call(ast.Attribute(name(n.target.id), "update", ast.Load()), [n.value], []))
            if isinstance(n.target, ast.Name):
                return ast.Assign([name(n.target.id, ast.Store())], ast.BinOp(name(n.target.id), n.op, n.value))
            return n
    fn.body = [T().visit(s) for s in fn.body]


# -- whole-file / whole-package rewrites ---------------------------------------------------------

def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, FUNCS)]


def apply_fn(src, key, only=None):
    tree = ast.parse(src)
    EXTRA.clear()
    Fresh.n = 0
    before = ast.dump(tree)
    for fn in functions(tree):
        if only and fn.name != only:
            continue
        RW[key](fn)
    if key != "plain" and ast.dump(tree) == before and not EXTRA:
        return None
    tree.body += EXTRA
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def rename_all(sources, old, new):
    out = {}
    for f, s in sources.items():
        t = ast.parse(s)
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and n.id == old:
                n.id = new
            elif isinstance(n, ast.Attribute) and n.attr == old:
                n.attr = new
            elif isinstance(n, (*FUNCS, ast.ClassDef)) and n.name == old:
                n.name = new
            elif isinstance(n, ast.alias) and n.name == old:
                n.name = new
            elif isinstance(n, ast.keyword) and n.arg == old:
                n.arg = new
            elif isinstance(n, ast.arg) and n.arg == old:
                n.arg = new
        out[f] = ast.unparse(t)
    return out


def run(job):
    label, files, props = job
    d = tempfile.mkdtemp(prefix="saw")
    try:
        shutil.copytree(os.path.join(REPO, "modulegraph2"), os.path.join(d, "modulegraph2"), ignore=shutil.ignore_patterns("__pycache__"))
        for f, s in files.items():
            compile(s, f, "exec")
            open(os.path.join(d, "modulegraph2", f), "w").write(s)
        res = []
        for pid in props:
            try:
                r = subprocess.run([sys.executable, "-m", "sa.check", pid], cwd=ROOT, capture_output=True, text=True,
                                   env=dict(os.environ, SA_REPO=d, SA_OUT=d, PYTHONHASHSEED="0"), timeout=300)
            except subprocess.TimeoutExpired:
                res.append((pid, "timeout"))
                continue
            if r.returncode != 0:
                res.append((pid, f"rc={r.returncode} " + " / ".join((r.stdout + r.stderr).strip().splitlines()[-5:])[:700]))
        return label, res
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-f", action="append")
    ap.add_argument("-o")
    ap.add_argument("-p", action="append")
    ap.add_argument("-w", help="write the rewritten package here instead of checking it")
    ap.add_argument("--per-function", action="store_true")
    ap.add_argument("--rename", nargs="*")
    ap.add_argument("--mix", type=int, help="this many random sequences of rewrites of the whole package")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("rw", nargs="*")
    a = ap.parse_args()
    props = a.p or available()
    names = sorted(f for f in os.listdir(os.path.join(REPO, "modulegraph2")) if f.endswith(".py"))
    sources = {f: open(os.path.join(REPO, "modulegraph2", f)).read() for f in names}
    jobs = []
    if a.rename is not None:
        for r in a.rename:
            jobs.append((f"rename {r}", rename_all(sources, r, r + "_rn"), props))
    elif a.mix:
        import random
        for k in range(a.mix):
            rnd = random.Random(a.seed * 1000 + k)
            keys = rnd.sample([x for x in RW if x not in ("plain", "rename_params")], 4)
            files = {}
            for f in names:
                s = sources[f]
                for key in keys:
                    s = apply_fn(s, key) or s
                files[f] = s
            jobs.append(("+".join(keys), files, props))
    else:
        for key in a.rw or RW:
            if a.w:
                shutil.copytree(os.path.join(REPO, "modulegraph2"), os.path.join(a.w, "modulegraph2"), ignore=shutil.ignore_patterns("__pycache__"), dirs_exist_ok=True)
            for f in a.f or names:
                todo = [a.o] if a.o else sorted({fn.name for fn in functions(ast.parse(sources[f]))}) if a.per_function else [None]
                for only in todo:
                    s = apply_fn(sources[f], key, only)
                    if s is None:
                        continue
                    if a.w:
                        open(os.path.join(a.w, "modulegraph2", f), "w").write(s)
                        continue
                    jobs.append((f"{key} {f} {only or ''}", {f: s}, props))
    bad = 0
    with concurrent.futures.ProcessPoolExecutor(8) as ex:
        for label, res in ex.map(run, jobs):
            for pid, msg in res:
                bad += 1
                print(f"ALARM {label} {pid}: {msg}", flush=True)
    print(f"{len(jobs)} rewrites, {bad} alarms")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
