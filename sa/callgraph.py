"""Calls between the functions of the package, resolved by name over the syntax tree.

Synchronous edges only: a function that is merely referred to (put on the work list, registered as
a hook, stored in a table) is not called by the function that refers to it.
"""
import ast

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


class Fn:
    """A function, method or nested function."""

    def __init__(self, module, node, cls, outer):
        self.module, self.node, self.cls, self.outer = module, node, cls, outer
        head = outer.path if outer else (cls.name + "." if cls else "")
        self.path = f"{head}{'.' if outer else ''}{node.name}"
        self.qual = f"{module.name.split('.', 1)[-1]}:{self.path}"
        self.name = node.name
        self.local = {}
        self.calls = []        # (callee, line, kind)
        self.refs = []         # functions referred to without being called
        self.ext = []          # (dotted name or attribute, line) of calls that leave the package

    def __repr__(self):
        return self.qual


class CallGraph:
    def __init__(self, repo):
        self.repo = repo
        self.fns = []
        self.top = {}          # (module name, function name) -> Fn
        self.methods = {}      # (class name, method name) -> Fn
        self.by_method = {}    # method name -> [Fn]
        for m in repo.modules.values():
            self._collect(m, m.tree.body, None, None)
        self.classes_ext = {}
        for f in self.fns:
            self._scan(f)

    def _collect(self, m, body, cls, outer):
        for st in body:
            if isinstance(st, FUNC):
                f = Fn(m, st, cls, outer)
                self.fns.append(f)
                if outer is not None:
                    outer.local[st.name] = f
                elif cls is not None:
                    self.methods[(cls.name, st.name)] = f
                    self.by_method.setdefault(st.name, []).append(f)
                else:
                    self.top[(m.name, st.name)] = f
                self._collect(m, st.body, None, f)
            elif isinstance(st, ast.ClassDef):
                ci = self.repo.classes.get(st.name)
                self._collect(m, st.body, ci if outer is None else None, None if outer is None else outer)
            else:
                for field in ("body", "orelse", "finalbody", "handlers", "cases"):
                    for x in getattr(st, field, []) or []:
                        self._collect(m, [x] if isinstance(x, ast.stmt) else x.body, cls, outer)

    def _own(self, f):
        """Nodes of a function without its nested functions and without lambda bodies."""
        todo = list(f.node.body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, FUNC + (ast.ClassDef,)):
                todo.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def _resolve(self, f, e):
        """Functions an expression may denote, or a dotted external name."""
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in g.local:
                    return [g.local[e.id]], None
                g = g.outer
            b = self.repo.lookup(f.module, e.id)
            if b is None:
                return [], e.id
            if b[0] == "func":
                t = self.top.get((b[1].module.name, b[1].name))
                return ([t] if t else []), None
            if b[0] == "class":
                out = [self.methods[(c.name, k)] for c in self.repo.mro(b[1]) for k in ("__init__", "__new__", "__post_init__") if (c.name, k) in self.methods]
                return out, None
            return [], b[1] if b[0] == "ext" and isinstance(b[1], str) else e.id
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                b = None if e.value.id in f.local else self.repo.lookup(f.module, e.value.id)
                if b is not None and b[0] == "mod":
                    t = self.top.get((b[1], e.attr))
                    if t:
                        return [t], None
                if b is not None and b[0] == "ext":
                    return [], f"{b[1]}.{e.attr}"
                if e.value.id == "self" and self._cls(f) is not None:
                    c = self._cls(f)
                    own = self.repo.find_method(c, e.attr)
                    subs = [self.methods[(s, e.attr)] for s in self.repo.subclasses(c.name) if (s, e.attr) in self.methods]
                    if own is not None and own.cls is not None:
                        return list({id(x): x for x in [self.methods[(own.cls.name, e.attr)]] + subs}.values()), None
                    return subs, None if subs else "." + e.attr
            if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super":
                c = self._cls(f)
                for b in (self.repo.mro(c)[1:] if c else ()):
                    if (b.name, e.attr) in self.methods:
                        return [self.methods[(b.name, e.attr)]], None
                return [], "." + e.attr
            return list(self.by_method.get(e.attr, ())), "." + e.attr
        return [], None

    def _cls(self, f):
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.outer
        return None

    def _scan(self, f):
        called = set()
        ns = list(self._own(f))
        for n in ns:
            if isinstance(n, ast.Call):
                called.add(id(n.func))
                fs, ext = self._resolve(f, n.func)
                for g in fs:
                    f.calls.append((g, n.lineno, "call"))
                if ext is not None:
                    f.ext.append((ext, n.lineno))
                if isinstance(n.func, ast.Name) and n.func.id in ("map", "filter", "sorted", "min", "max", "sum", "any", "all", "list", "tuple", "next"):
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        if isinstance(a, (ast.Name, ast.Attribute)):
                            for g in self._resolve(f, a)[0] if not isinstance(a, ast.Attribute) or isinstance(a.value, ast.Name) and a.value.id == "self" else ():
                                f.calls.append((g, n.lineno, "call"))
                        if isinstance(a, ast.Lambda):
                            for x in ast.walk(a.body):
                                if isinstance(x, ast.Call):
                                    for g in self._resolve(f, x.func)[0]:
                                        f.calls.append((g, x.lineno, "call"))
                if isinstance(n.func, ast.Lambda):
                    for x in ast.walk(n.func.body):
                        if isinstance(x, ast.Call):
                            for g in self._resolve(f, x.func)[0]:
                                f.calls.append((g, x.lineno, "call"))
        for n in ns:
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and id(n) not in called:
                fs, _ = self._resolve(f, n) if isinstance(n, ast.Name) or isinstance(n.value, ast.Name) else ([], None)
                for g in fs:
                    if g.cls is not None and any(ast.unparse(d).split(".")[-1] in ("property", "cached_property") for d in g.node.decorator_list):
                        f.calls.append((g, n.lineno, "property"))
                    elif isinstance(n, ast.Name) or n.value.id == "self" or all(h.cls is not None and h.cls.module is f.module for h in fs):
                        f.refs.append((g, n.lineno))
            if isinstance(n, ast.Lambda):
                for x in ast.walk(n.body):
                    if isinstance(x, ast.Call):
                        for g in self._resolve(f, x.func)[0]:
                            f.refs.append((g, x.lineno))

    def find(self, qual):
        return next((f for f in self.fns if f.qual == qual), None)

    def reach(self, starts, extra=None):
        """{function: (caller, line)} for everything called, directly or not, from `starts`."""
        seen = {f: None for f in starts}
        todo = list(starts)
        while todo:
            f = todo.pop()
            for g, line, _ in f.calls + (extra or {}).get(f, []):
                if g not in seen:
                    seen[g] = (f, line)
                    todo.append(g)
        return seen

    def chain(self, seen, f):
        out = [f.qual]
        while seen.get(f) is not None:
            f = seen[f][0]
            out.append(f.qual)
        return " <- ".join(out)

    def cycle_through(self, f, within, extra=None):
        """A call chain from f back to f inside `within`, as text, or None."""
        seen = {}
        todo = []
        for g, line, _ in f.calls + (extra or {}).get(f, []):
            if g is f:
                return f"{f.qual} calls itself (line {line})", line
            if g in within and g not in seen:
                seen[g] = (f, line)
                todo.append(g)
        while todo:
            x = todo.pop(0)
            for g, line, _ in x.calls + (extra or {}).get(x, []):
                if g is f:
                    names, y = [f.qual, x.qual], x
                    while seen[y][0] is not f:
                        y = seen[y][0]
                        names.append(y.qual)
                    names.append(f.qual)
                    return " -> ".join(reversed(names)), seen[y][1]
                if g in within and g not in seen:
                    seen[g] = (x, line)
                    todo.append(g)
        return None
