"""Values of module-level names, computed from a module's source for a given platform and Python release.

Statements are folded over constants only: whatever is not a constant becomes `Unknown`.  Nothing of the package is imported
or run; calls are understood only for the library functions named here and for functions of the module itself.
"""
import ast
from types import SimpleNamespace

Unknown = type("Unknown", (), {"__repr__": lambda s: "?"})()
METHODS = {
    str: {"format", "join", "split", "replace", "rpartition", "partition", "strip", "lower", "upper", "startswith", "endswith", "removeprefix"},
    dict: {"get", "items", "keys", "values", "copy", "update", "setdefault", "pop"},
    list: {"append", "extend", "copy", "insert"}, tuple: {"index", "count"},
    set: {"add", "update", "union", "copy", "discard"}, frozenset: {"union"},
}
CALLS = {"dict": dict, "list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "str": str, "sorted": sorted, "zip": zip, "range": range,
         "len": len, "isinstance": isinstance, "dict.fromkeys": dict.fromkeys, "map": map, "enumerate": enumerate, "any": any, "all": all, "bool": bool}


class NotConstant(Exception):
    pass


class Return(Exception):
    pass


class Function:
    def __init__(self, node, env):
        self.node, self.env = node, env


def settings(platform, version):
    """What the module can learn about the interpreter."""
    path = SimpleNamespace(__name__="ntpath" if platform == "win32" else "posixpath")
    return {
        "sys": SimpleNamespace(platform=platform, version_info=version + (0, "final", 0), abiflags="FLAGS", hexversion=(version[0] << 24) | (version[1] << 16),
                               implementation=SimpleNamespace(name="cpython", _multiarch="MULTIARCH"), builtin_module_names=("sys", "builtins", "time")),
        "os": SimpleNamespace(path=path, name="nt" if platform == "win32" else "posix"),
    }


class Module:
    def __init__(self, tree, platform, version, others=None):
        self.known, self.others, self.steps = settings(platform, version), others, 0
        self.env = {"True": True, "False": False, "None": None, "__name__": "module", "str": str, "dict": dict, "tuple": tuple, "list": list, "set": set, "int": int}
        self.block(tree.body, self.env)

    # statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 200000:
            raise NotConstant("too many steps")
        if isinstance(s, ast.Assign):
            v = self.value(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.value(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                load = ast.Name(s.target.id, ast.Load())
            else:
                load = ast.Subscript(s.target.value, s.target.slice, ast.Load()) if isinstance(s.target, ast.Subscript) else s.target
            cur, v = self.value(load, env), self.value(s.value, env)
            if isinstance(s.op, ast.BitOr) and isinstance(cur, (dict, set)) and v is not Unknown:
                cur.update(v)
            elif isinstance(s.op, ast.Add) and isinstance(cur, list) and v is not Unknown:
                cur.extend(v)
            else:
                self.assign(s.target, self.binop(s.op, cur, v), env)
        elif isinstance(s, ast.Expr):
            self.value(s.value, env, strict=isinstance(s.value, ast.Call))
        elif isinstance(s, ast.If):
            c = self.value(s.test, env)
            if c is Unknown:
                raise NotConstant(ast.unparse(s.test))
            self.block(s.body if c else s.orelse, env)
        elif isinstance(s, ast.For):
            it = self.value(s.iter, env)
            if it is Unknown:
                raise NotConstant(ast.unparse(s.iter))
            for x in list(it):
                self.assign(s.target, x, env)
                self.block(s.body, env)
            self.block(s.orelse, env)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = Function(s, env)
        elif isinstance(s, ast.ClassDef):
            bases = [self.value(b, env) for b in s.bases]
            env[s.name] = type(s.name, tuple(bases), {}) if bases and all(isinstance(b, type) for b in bases) else type(s.name, (), {})
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if isinstance(s, ast.Import):
                    n = (a.asname or a.name.split(".")[0])
                    env[n] = self.known.get(a.name.split(".")[0], Unknown)
                else:
                    env[a.asname or a.name] = getattr(self.known.get(s.module), a.name, Unknown) if s.module in self.known else Unknown
                    if s.level and self.others is not None:
                        env[a.asname or a.name] = self.others(s.module, a.name)
        elif isinstance(s, ast.Return):
            raise Return(self.value(s.value, env) if s.value is not None else None)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    del self.value(t.value, env)[self.value(t.slice, env)]
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(s, (ast.Pass, ast.Assert, ast.Global, ast.Nonlocal)) or s.__class__.__name__ == "TypeAlias":
            pass
        else:
            raise NotConstant(f"{type(s).__name__} on line {s.lineno}")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = [Unknown] * len(t.elts) if v is Unknown else list(v)
            for x, y in zip(t.elts, vs, strict=True):
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            self.value(t.value, env, strict=True)[self.value(t.slice, env, strict=True)] = v
        elif not isinstance(t, ast.Attribute):
            raise NotConstant(ast.unparse(t))

    # expressions
    def value(self, e, env, strict=False):
        try:
            v = self.expr(e, env)
        except (NotConstant, AttributeError, TypeError, KeyError, ValueError, IndexError) as exc:
            if strict:
                raise NotConstant(f"{ast.unparse(e)[:60]} ({exc})") from exc
            return Unknown
        if strict and v is Unknown:
            raise NotConstant(ast.unparse(e)[:60])
        return v

    def expr(self, e, env):
        get = lambda x: self.known_value(x, env)  # noqa: E731
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            while e.id not in env and "<outer>" in env:
                env = env["<outer>"]
            return env.get(e.id, Unknown)
        if isinstance(e, ast.NamedExpr):
            env[e.target.id] = v = get(e.value)
            return v
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            xs = []
            for x in e.elts:
                xs += list(get(x.value)) if isinstance(x, ast.Starred) else [get(x)]
            return {ast.Tuple: tuple, ast.List: list, ast.Set: set}[type(e)](xs)
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    out.update(get(v))
                else:
                    out[get(k)] = get(v)
            return out
        if isinstance(e, ast.Attribute):
            return getattr(get(e.value), e.attr)
        if isinstance(e, ast.Subscript):
            return get(e.value)[get(e.slice)]
        if isinstance(e, ast.Slice):
            return slice(*(None if x is None else get(x) for x in (e.lower, e.upper, e.step)))
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, get(e.left), get(e.right))
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = get(x)
                if bool(v) is isinstance(e.op, ast.Or):
                    return v
            return v
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not get(e.operand)
        if isinstance(e, ast.IfExp):
            return get(e.body if get(e.test) else e.orelse)
        if isinstance(e, ast.Compare):
            left = get(e.left)
            for op, r in zip(e.ops, e.comparators):
                right = get(r)
                if not {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
                        ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b, ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b,
                        ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b}[type(op)](left, right):
                    return False
                left = right
            return True
        if isinstance(e, ast.JoinedStr):
            return "".join(get(x) if isinstance(x, ast.Constant) else format(get(x.value), "".join(y.value for y in x.format_spec.values) if x.format_spec else "") for x in e.values)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            rows = list(self.turns(e.generators, {"<outer>": env}))
            if isinstance(e, ast.DictComp):
                return {self.known_value(e.key, x): self.known_value(e.value, x) for x in rows}
            xs = [self.known_value(e.elt, x) for x in rows]
            return set(xs) if isinstance(e, ast.SetComp) else xs
        if isinstance(e, ast.Call):
            return self.call(e, env)
        raise NotConstant(type(e).__name__)

    def known_value(self, e, env):
        v = self.expr(e, env)
        if v is Unknown:
            raise NotConstant(ast.unparse(e)[:60])
        return v

    def turns(self, gens, env):
        if not gens:
            yield env
            return
        for v in list(self.known_value(gens[0].iter, env)):
            inner = {"<outer>": env}
            self.assign(gens[0].target, v, inner)
            if all(self.known_value(c, inner) for c in gens[0].ifs):
                yield from self.turns(gens[1:], inner)

    @staticmethod
    def binop(op, a, b):
        if a is Unknown or b is Unknown:
            raise NotConstant("operand")
        return {ast.Add: lambda: a + b, ast.BitOr: lambda: a | b, ast.Mod: lambda: a % b, ast.Mult: lambda: a * b, ast.Sub: lambda: a - b}[type(op)]()

    def call(self, e, env):
        args = []
        for x in e.args:
            args += list(self.known_value(x.value, env)) if isinstance(x, ast.Starred) else [self.known_value(x, env)]
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.known_value(k.value, env))
            else:
                kw[k.arg] = self.known_value(k.value, env)
        fn = ast.unparse(e.func)
        if fn == "getattr" and len(args) >= 2:
            return getattr(*args)
        if fn.split(".")[-1] in ("MappingProxyType", "cast") and args:
            return args[-1]
        f = env.get(fn) if "." not in fn else None
        if isinstance(f, Function):
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            inner = {"<outer>": f.env}
            for x, d in zip(reversed(names), reversed(a.defaults)):
                inner[x] = self.known_value(d, f.env)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    inner[x.arg] = self.known_value(d, f.env)
            inner.update(zip(names, args))
            inner.update(kw)
            try:
                self.block(f.node.body, inner)
            except Return as r:
                return r.args[0]
            return None
        if isinstance(f, type):
            return f(*args, **kw)
        if fn in CALLS:
            return CALLS[fn](*args, **kw)
        if isinstance(e.func, ast.Attribute):
            o = self.known_value(e.func.value, env)
            if any(isinstance(o, t) and e.func.attr in ms for t, ms in METHODS.items()):
                return getattr(o, e.func.attr)(*args, **kw)
        raise NotConstant(fn)
