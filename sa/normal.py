"""Equivalent ways to write a loop, brought to one form before the analysis.

Every step replaces a statement sequence by one with the same behaviour:

* ``it = iter(X)`` / ``while True: try: T = next(it) except StopIteration: break`` is ``for T in X``
* ``i = 0`` / ``while i < len(X): T = X[i]; i += 1`` and ``for i in range(len(X)): T = X[i]`` are ``for T in X``
* ``while True: if C: break`` is ``while not C``
* ``x = []`` followed by a loop that does nothing but append to it is a comprehension
* ``x = x + e`` is ``x += e`` for a list that has no other name
* ``a, b = S[i - 2 : i]`` takes the elements one by one
* ``yield from (E for T in X)`` is ``for T in X: yield E``; a generator only the next statement uses stands there
* ``any(x == y for y in C)`` is ``x in C``, ``S.isdisjoint(X)`` is ``not any(x in S for x in X)``
* ``f = self.method`` followed by calls of ``f`` calls the method
"""
import ast

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = (*FUNCS, ast.ClassDef, ast.Lambda)


def own(node):
    """The nodes below `node` that belong to the same function."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, SCOPES):
            todo.extend(ast.iter_child_nodes(n))


def blocks(fn):
    yield fn.body
    for n in own(fn):
        if isinstance(n, SCOPES):
            continue
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def names(nodes, ident):
    return [n for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == ident]


def same(a, b):
    return ast.dump(a) == ast.dump(b)


def is_name(n, ident=None):
    return isinstance(n, ast.Name) and (ident is None or n.id == ident)


def assigned(s):
    """(name, value) of a plain assignment to a local name."""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and is_name(s.targets[0]):
        return s.targets[0].id, s.value
    if isinstance(s, ast.AnnAssign) and is_name(s.target) and s.value is not None:
        return s.target.id, s.value
    return None, None


def call_of(n, fname, nargs=1):
    return isinstance(n, ast.Call) and is_name(n.func, fname) and len(n.args) == nargs and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args)


def negated(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.copy_location(ast.UnaryOp(ast.Not(), t), t)


def is_true(n):
    return isinstance(n, ast.Constant) and (n.value is True or n.value == 1)


def own_jump(body, kinds):
    """Is there a break/continue in `body` that belongs to the loop around it?"""
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, kinds):
            return True
        if isinstance(x, SCOPES):
            continue
        if isinstance(x, (ast.For, ast.AsyncFor, ast.While)):
            todo += x.orelse
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


def iterator_loop(fn, b, i):
    """it = iter(X); while True: try: T = next(it) except StopIteration: break; BODY"""
    it, v = assigned(b[i])
    if it is None or not call_of(v, "iter") or i + 1 >= len(b):
        return False
    w = b[i + 1]
    if not (isinstance(w, ast.While) and is_true(w.test) and not w.orelse and w.body and isinstance(w.body[0], ast.Try)):
        return False
    t = w.body[0]
    if len(t.body) != 1 or t.finalbody or len(t.handlers) != 1 or not is_name(t.handlers[0].type, "StopIteration"):
        return False
    h = t.handlers[0]
    if not (len(h.body) == 1 and isinstance(h.body[0], ast.Break)):
        return False
    a = t.body[0]
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and call_of(a.value, "next") and is_name(a.value.args[0], it)):
        return False
    if len(names([fn], it)) != 2:
        return False
    b[i:i + 2] = [ast.copy_location(ast.For(a.targets[0], v.args[0], t.orelse + w.body[1:] or [ast.copy_location(ast.Pass(), w)], [], None), w)]
    return True


def stable(x, body):
    """An expression that denotes the same list throughout `body`."""
    if is_name(x):
        return not any(isinstance(n.ctx, (ast.Store, ast.Del)) for n in names(body, x.id))
    if isinstance(x, ast.Attribute) and is_name(x.value):
        return stable(x.value, body) and not any(
            isinstance(n, ast.Attribute) and n.attr == x.attr and isinstance(n.ctx, ast.Store) for s in body for n in ast.walk(s))
    return False


def item_of(s, x, i):
    """T when s is `T = X[i]`"""
    if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.Subscript) and same(s.value.value, x) and is_name(s.value.slice, i):
        if isinstance(s, ast.AnnAssign):
            return s.target
        if len(s.targets) == 1:
            return s.targets[0]
    return None


def index_loop(fn, b, i):
    """i = 0; while i < len(X): T = X[i]; ...; i += 1"""
    ix, v = assigned(b[i])
    if ix is None or not (isinstance(v, ast.Constant) and v.value == 0 and v.value is not False) or i + 1 >= len(b):
        return False
    w = b[i + 1]
    if not (isinstance(w, ast.While) and not w.orelse and isinstance(w.test, ast.Compare) and len(w.test.ops) == 1):
        return False
    le, op, ri = w.test.left, w.test.ops[0], w.test.comparators[0]
    if isinstance(op, ast.Gt):
        le, ri = ri, le
    elif not isinstance(op, (ast.Lt, ast.NotEq)):
        return False
    if not (is_name(le, ix) and call_of(ri, "len")):
        return False
    x = ri.args[0]
    t = item_of(w.body[0], x, ix)
    if t is None or not stable(x, w.body):
        return False
    step = [s for s in w.body if isinstance(s, ast.AugAssign) and is_name(s.target, ix) and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) and s.value.value == 1]
    if len(step) != 1 or len(names([fn], ix)) != 4:
        return False
    if step[0] is not w.body[1] and (step[0] is not w.body[-1] or own_jump(w.body, ast.Continue)):
        return False
    body = [s for s in w.body[1:] if s is not step[0]]
    b[i:i + 2] = [ast.copy_location(ast.For(t, x, body or [ast.copy_location(ast.Pass(), w)], [], None), w)]
    return True


def range_loop(fn, b, i):
    """for i in range(len(X)): T = X[i]; ..."""
    w = b[i]
    if not (isinstance(w, ast.For) and is_name(w.target) and call_of(w.iter, "range") and call_of(w.iter.args[0], "len")):
        return False
    x, ix = w.iter.args[0].args[0], w.target.id
    t = item_of(w.body[0], x, ix)
    if t is None or not stable(x, w.body) or len(names([fn], ix)) != 2:
        return False
    b[i] = ast.copy_location(ast.For(t, x, w.body[1:] or [ast.copy_location(ast.Pass(), w)], w.orelse, None), w)
    return True


def leading_break(fn, b, i):
    w = b[i]
    if not (isinstance(w, ast.While) and is_true(w.test) and not w.orelse and len(w.body) > 1):
        return False
    s = w.body[0]
    if not (isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Break)):
        return False
    w.test, w.body = negated(s.test), s.orelse + w.body[1:]
    return True


def collecting_loop(fn, b, i):
    x, v = assigned(b[i])
    if x is None or i + 1 >= len(b) or not isinstance(b[i + 1], ast.For):
        return False
    if isinstance(v, ast.List) and not v.elts or call_of(v, "list", 0):
        meth, make = "append", ast.ListComp
    elif call_of(v, "set", 0):
        meth, make = "add", ast.SetComp
    else:
        return False
    gens, s, bound = [], b[i + 1], set()
    while True:
        if isinstance(s, ast.For) and not s.orelse and not s.type_comment:
            gens.append(ast.comprehension(s.target, s.iter, [], 0))
            bound |= {n.id for n in ast.walk(s.target) if is_name(n)}
            if not all(is_name(n) or isinstance(n, (ast.Tuple, ast.expr_context)) for n in ast.walk(s.target)):
                return False
        elif isinstance(s, ast.If) and not s.orelse:
            gens[-1].ifs.append(s.test)
        else:
            break
        if len(s.body) != 1:
            return False
        s = s.body[0]
    if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == meth
            and is_name(s.value.func.value, x) and len(s.value.args) == 1 and not s.value.keywords and not isinstance(s.value.args[0], ast.Starred)):
        return False
    loop = b[i + 1]
    if len(names([loop], x)) != 1:
        return False
    if any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(loop)):
        return False
    inside = {id(n) for n in ast.walk(loop)}
    for n in ast.walk(fn):
        # the name is bound anew here
        if isinstance(n, ast.For) and any(is_name(m) and m.id in bound for m in ast.walk(n.target)):
            here = {m.id for m in ast.walk(n.target) if is_name(m)}
            inside |= {id(m) for s in n.body + [n.target] for m in ast.walk(s) if is_name(m) and m.id in here}
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            here = {m.id for g in n.generators for m in ast.walk(g.target) if is_name(m)}
            inside |= {id(m) for m in ast.walk(n) if is_name(m) and m.id in here}
    if any(is_name(n) and n.id in bound and id(n) not in inside for n in ast.walk(fn)):
        return False
    e = ast.copy_location(make(s.value.args[0], gens), loop)
    b[i].value = e
    del b[i + 1]
    return True


def growing_list(fn, b, i):
    """x = x + e"""
    x, v = assigned(b[i])
    if x is None or not (isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and is_name(v.left, x)) or names([v.right], x):
        return False
    inits = [assigned(s)[1] for s in own(fn) if isinstance(s, (ast.Assign, ast.AnnAssign)) and assigned(s)[0] == x and s is not b[i]]
    inits = [n for n in inits if not (isinstance(n, ast.BinOp) and is_name(n.left, x))]
    if not inits or not all(isinstance(n, ast.List) or call_of(n, "list", 0) for n in inits):
        return False
    # no other name for the list: it is only returned, tested or used as the receiver of its methods
    fine = set()
    for n in own(fn):
        if isinstance(n, ast.Return) and n.value is not None:
            fine |= {id(m) for m in ([n.value] + (n.value.elts if isinstance(n.value, ast.Tuple) else []))}
        elif isinstance(n, (ast.If, ast.While)):
            fine.add(id(n.test))
        elif isinstance(n, ast.Call):
            fine |= {id(n.func.value)} if isinstance(n.func, ast.Attribute) else set()
            fine |= {id(a) for a in n.args} if is_name(n.func, "len") else set()
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            fine.add(id(n.left))
    # a name it gets once it does not grow any more does not matter
    grows = [s for s in own(fn) if assigned(s)[0] == x and isinstance(assigned(s)[1], ast.BinOp)]
    around = [n for n in own(fn) if isinstance(n, (ast.For, ast.While)) and any(m in grows for m in own(n))]
    end = max(getattr(n, "end_lineno", None) or n.lineno for n in grows + around)
    if any(isinstance(n.ctx, ast.Load) and id(n) not in fine and n.lineno <= end for n in names([fn], x)):
        return False
    b[i] = ast.copy_location(ast.AugAssign(ast.copy_location(ast.Name(x, ast.Store()), b[i]), ast.Add(), v.right), b[i])
    return True


def linear(e):
    """(name, constant) of an index `i`, `i + 2`, `i - 1`."""
    if is_name(e):
        return e.id, 0
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and is_name(e.left) and isinstance(e.right, ast.Constant) and type(e.right.value) is int:
        return e.left.id, e.right.value if isinstance(e.op, ast.Add) else -e.right.value
    return None


def window(fn, b, i):
    """a, b = S[i - 2 : i]"""
    s = b[i]
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and all(is_name(t) for t in s.targets[0].elts)
            and isinstance(s.value, ast.Subscript) and is_name(s.value.value) and isinstance(s.value.slice, ast.Slice) and s.value.slice.step is None):
        return False
    ts, sl = s.targets[0].elts, s.value.slice
    lo, hi = linear(sl.lower), linear(sl.upper)
    if lo is None or hi is None or lo[0] != hi[0] or hi[1] - lo[1] != len(ts) or {t.id for t in ts} & {lo[0], s.value.value.id}:
        return False
    new = []
    for k, t in enumerate(ts):
        d = lo[1] + k
        ix = ast.Name(lo[0], ast.Load())
        if d:
            ix = ast.BinOp(ix, ast.Add() if d > 0 else ast.Sub(), ast.Constant(abs(d)))
        new.append(ast.copy_location(ast.Assign([t], ast.Subscript(ast.Name(s.value.value.id, ast.Load()), ix, ast.Load())), s))
    b[i:i + 1] = new
    return True


def yields_each(fn, b, i):
    """yield from (E for T in X if C)"""
    s = b[i]
    if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom) and isinstance(s.value.value, ast.GeneratorExp)):
        return False
    g = s.value.value
    bound = {n.id for c in g.generators for n in ast.walk(c.target) if is_name(n)}
    if any(c.is_async for c in g.generators):
        return False
    inside = {id(n) for n in ast.walk(g)}
    taken = {n.id for n in ast.walk(fn) if is_name(n) and id(n) not in inside} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    for x in bound & taken:
        new = x + "_each"
        while new in taken:
            new += "_"
        for n in ast.walk(g):
            if is_name(n, x):
                n.id = new
    body = [ast.copy_location(ast.Expr(ast.Yield(g.elt)), s)]
    for c in reversed(g.generators):
        for t in reversed(c.ifs):
            body = [ast.copy_location(ast.If(t, body, []), s)]
        body = [ast.copy_location(ast.For(c.target, c.iter, body, []), s)]
    b[i] = body[0]
    return True


def used_once(fn, b, i):
    """x = (generator) that only the next statement uses, once"""
    x, v = assigned(b[i])
    if x is None or not isinstance(v, ast.GeneratorExp) or i + 1 >= len(b):
        return False
    uses = [n for n in names([fn], x) if n is not b[i].targets[0]] if isinstance(b[i], ast.Assign) else []
    nxt = b[i + 1]
    if len(uses) != 1 or not isinstance(nxt, (ast.Return, ast.Assign, ast.Expr, ast.For, ast.AugAssign, ast.AnnAssign)):
        return False
    where = nxt.iter if isinstance(nxt, ast.For) else nxt
    for p in [where, *own(where)]:
        first = p.generators[0] if isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) else None
        if first is not None and first.iter is uses[0]:
            first.iter = v
            del b[i]
            return True
        if isinstance(p, (*SCOPES, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            continue
        for f, c in ast.iter_fields(p):
            if c is uses[0]:
                setattr(p, f, v)
            elif isinstance(c, list) and any(e is uses[0] for e in c):
                c[[e is uses[0] for e in c].index(True)] = v
            else:
                continue
            del b[i]
            return True
    if isinstance(nxt, ast.For) and nxt.iter is uses[0]:
        nxt.iter = v
        del b[i]
        return True
    return False


def return_next(fn, b, i):
    """return next((E for v in (E2 for w in X) if C), D): a loop that returns the first"""
    s = b[i]
    if not (isinstance(s, ast.Return) and call_of(s.value, "next", 2) and isinstance(s.value.args[0], ast.GeneratorExp)):
        return False
    g, default = s.value.args
    if len(g.generators) != 1 or not isinstance(g.generators[0].iter, ast.GeneratorExp) or not isinstance(g.generators[0].target, ast.Name):
        return False
    c = g.generators[0]
    v = c.target.id
    if not isinstance(default, ast.Constant) or c.is_async or outside(fn, g, v):
        return False
    body = [ast.copy_location(ast.Return(g.elt), s)]
    for t in reversed(c.ifs):
        body = [ast.copy_location(ast.If(t, body, []), s)]
    b[i:i + 1] = [ast.copy_location(ast.For(c.target, c.iter, body, []), s), ast.copy_location(ast.Return(default), s)]
    return True


def outside(fn, g, v):
    """is v a name of the function outside the generator g?"""
    inside = {id(n) for n in ast.walk(g)}
    args = fn.args
    return any(a.arg == v for a in [*args.posonlyargs, *args.args, *args.kwonlyargs, *filter(None, [args.vararg, args.kwarg])]) \
        or any(isinstance(n, ast.Name) and n.id == v and id(n) not in inside for n in ast.walk(fn))


def loop_of_generator(fn, b, i):
    """for v in (E for w in X if C): body  is  for w in X: if C: v = E; body"""
    s = b[i]
    if not (isinstance(s, ast.For) and isinstance(s.iter, ast.GeneratorExp) and len(s.iter.generators) == 1 and isinstance(s.target, ast.Name)):
        return False
    g, c = s.iter, s.iter.generators[0]
    if c.is_async or isinstance(c.iter, ast.GeneratorExp) or not isinstance(c.target, ast.Name) or c.target.id == s.target.id or outside(fn, g, c.target.id):
        return False
    body = [ast.copy_location(ast.Assign([s.target], g.elt), s), *s.body]
    for t in reversed(c.ifs):
        body = [ast.copy_location(ast.If(t, body, []), s)]
    b[i] = ast.copy_location(ast.For(c.target, c.iter, body, s.orelse), s)
    return True


STEPS = (return_next, loop_of_generator, window, yields_each, used_once, iterator_loop, index_loop, range_loop, leading_break, collecting_loop, growing_list)


def method_names(fn):
    """f = self.method, with f only ever called: the calls name the method."""
    if not fn.args.args:
        return
    me = fn.args.args[0].arg
    if me != "self" or any(isinstance(n.ctx, ast.Store) for n in names([fn], me)):
        return
    written = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and is_name(n.value, me)}
    for s in list(fn.body):
        x, v = assigned(s)
        if x is None or not (isinstance(v, ast.Attribute) and is_name(v.value, me)) or v.attr in written:
            continue
        uses = [n for n in names([fn], x) if isinstance(n.ctx, ast.Load)]
        stores = len(names([fn], x)) - len(uses)
        called = {id(n.func): n for n in ast.walk(fn) if isinstance(n, ast.Call)}
        first = fn.body.index(s)
        early = {id(n) for t in fn.body[:first] for n in ast.walk(t)}
        if stores != 1 or not uses or not all(id(n) in called for n in uses) or any(id(n) in early for n in uses):
            continue
        for n in uses:
            called[id(n)].func = ast.copy_location(ast.Attribute(ast.copy_location(ast.Name(me, ast.Load()), n), v.attr, ast.Load()), n)
        fn.body.remove(s)
        if not fn.body:
            fn.body.append(ast.copy_location(ast.Pass(), s))


class Membership(ast.NodeTransformer):
    """any(x == y for y in C) asks whether x is in C."""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "isdisjoint" and isinstance(f.value, ast.Name) and len(n.args) == 1 and not n.keywords:
            v = ast.Name("_member", ast.Load())
            g = ast.GeneratorExp(ast.Compare(v, [ast.In()], [f.value]), [ast.comprehension(ast.Name("_member", ast.Store()), n.args[0], [], 0)])
            return ast.copy_location(ast.UnaryOp(ast.Not(), ast.Call(ast.Name("any", ast.Load()), [g], [])), n)
        if call_of(n, "map", 2) and isinstance(n.args[0], (ast.Name, ast.Attribute)):
            v = "_mapped"
            return ast.copy_location(ast.GeneratorExp(ast.Call(n.args[0], [ast.Name(v, ast.Load())], []), [ast.comprehension(ast.Name(v, ast.Store()), n.args[1], [], 0)]), n)
        for f, make in (("list", ast.ListComp), ("set", ast.SetComp)):
            if call_of(n, f) and isinstance(n.args[0], ast.GeneratorExp):
                return ast.copy_location(make(n.args[0].elt, n.args[0].generators), n)
        if not (is_name(n.func, "any") and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp))):
            return n
        g = n.args[0]
        c = g.elt
        if len(g.generators) != 1 or g.generators[0].ifs or g.generators[0].is_async or not isinstance(g.generators[0].target, ast.Name):
            return n
        v = g.generators[0].target.id
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Eq, ast.Is))):
            return n
        for x, y in ((c.left, c.comparators[0]), (c.comparators[0], c.left)):
            if is_name(y, v) and isinstance(x, (ast.Name, ast.Attribute, ast.Constant)) and not names([x], v):
                return ast.copy_location(ast.Compare(x, [ast.In()], [g.generators[0].iter]), n)
        return n


def normalize(tree):
    Membership().visit(tree)
    for fn in [n for n in ast.walk(tree) if isinstance(n, FUNCS)]:
        method_names(fn)
        again = True
        while again:
            again = False
            for b in list(blocks(fn)):
                i = 0
                while i < len(b):
                    if any(step(fn, b, i) for step in STEPS):
                        again = True
                    else:
                        i += 1
    ast.fix_missing_locations(tree)
    return tree
