"""
Mutation probe: small syntactic changes to every function of the package, one
at a time, each analysed by the checks. Prints the changes no check reports; most
of them change nothing a property speaks about, the rest show what a check
misses. Nothing is executed.

    python3 tools/mutate.py [-f FILE] [-o FUNCTION] [-n EVERY]
"""

import argparse
import ast
import concurrent.futures
import copy
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")

ORDER = {
    "_ast_tools.py": "C01 C02 C31",
    "_bytecode_tools.py": "C03 C04 C31",
    "_callback_list.py": "C26",
    "_depinfo.py": "C05 C24",
    "_importinfo.py": "C05 C01 C03",
    "_distributions.py": "C20 C21",
    "_dotbuilder.py": "C24",
    "_htmlbuilder.py": "C23",
    "_graphbuilder.py": "C17 C19 C06 C32 C18 C30",
    "_nodes.py": "C19 C17 C30 C23",
    "_implies.py": "C12",
    "_mypyc_support.py": "C29",
    "_swig_support.py": "C28",
    "_utilities.py": "C18 C08 C06 C25",
    "__main__.py": "C25 C24 C18",
    "_modulegraph.py": "C05 C07 C08 C10 C11 C12 C13 C14 C15 C16 C22 C27 C30 C18 C06 C09 C31",
}
ALL = [f"C{i:02d}" for i in range(1, 33)]


def functions(tree):
    out = []

    def walk(body, prefix):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((prefix + n.name, n))
            elif isinstance(n, ast.ClassDef):
                walk(n.body, prefix + n.name + ".")

    walk(tree.body, "")
    return out


FLIP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
METHOD = {"append": "appendleft", "pop": "clear", "popleft": "pop", "add": "discard", "update": "intersection_update",
          "startswith": "endswith", "endswith": "startswith", "rsplit": "split", "split": "rsplit",
          "partition": "rpartition", "rpartition": "partition", "lstrip": "strip", "replace": "strip"}


def mutants(fn):
    """yield (description, node to change, change) for every change to fn"""
    parents = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assert, ast.JoinedStr)):
            for x in ast.walk(n):
                if x is not n or isinstance(n, ast.Assert):
                    skip.add(x)
        for field in ("annotation", "returns"):
            v = getattr(n, field, None)
            if isinstance(v, ast.AST):
                skip.update(ast.walk(v))
        body = getattr(n, "body", None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            skip.update(ast.walk(body[0]))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "cast":
            skip.update(ast.walk(n.args[0]))
    for n in ast.walk(fn):
        if n in skip or n is fn:
            continue
        line = getattr(n, "lineno", 0)
        for fld, val in ast.iter_fields(n):
            if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                for i, s in enumerate(val):
                    if s in skip or isinstance(s, (ast.Pass, ast.FunctionDef, ast.Import, ast.ImportFrom)) or isinstance(s, ast.AnnAssign) and s.value is None:
                        continue
                    if isinstance(s, (ast.Expr, ast.AugAssign, ast.Return, ast.Continue, ast.Break, ast.Raise)) or isinstance(s, (ast.Assign, ast.AnnAssign)) and not isinstance(parents.get(s), ast.Module):
                        def do(n=n, fld=fld, i=i):
                            getattr(n, fld)[i] = ast.Pass()
                        yield f"{s.lineno} delete: {ast.unparse(s)[:70]}", do
                    if isinstance(s, ast.If):
                        for v in (True, False):
                            def do(s=s, v=v):
                                s.test = ast.Constant(v)
                            yield f"{s.lineno} if {v}: {ast.unparse(s.test)[:60]}", do
                    if isinstance(s, ast.Try):
                        if s.finalbody and not s.handlers:
                            def do(n=n, fld=fld, i=i, s=s):
                                getattr(n, fld)[i:i + 1] = s.body + s.finalbody
                            yield f"{s.lineno} drop finally", do
                        for h in s.handlers:
                            if h.type is not None:
                                def do(h=h):
                                    h.type = ast.Name("ZeroDivisionError", ast.Load())
                                yield f"{h.lineno} handler gone: {ast.unparse(h.type)[:50]}", do
                                if isinstance(h.type, ast.Tuple):
                                    for k in range(len(h.type.elts)):
                                        def do(h=h, k=k):
                                            del h.type.elts[k]
                                        yield f"{h.lineno} handler without {ast.unparse(h.type.elts[k])}", do
                    if isinstance(s, ast.Continue):
                        def do(n=n, fld=fld, i=i):
                            getattr(n, fld)[i] = ast.Break()
                        yield f"{s.lineno} continue->break", do
                    if isinstance(s, ast.Break):
                        def do(n=n, fld=fld, i=i):
                            getattr(n, fld)[i] = ast.Continue()
                        yield f"{s.lineno} break->continue", do
                    if isinstance(s, ast.Return) and s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                        def do(s=s):
                            s.value = ast.Constant(None)
                        yield f"{s.lineno} return None for {ast.unparse(s.value)[:50]}", do
                    if isinstance(s, ast.For):
                        def do(s=s):
                            s.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [s.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
                        yield f"{s.lineno} skip first of {ast.unparse(s.iter)[:50]}", do
                        def do(s=s):
                            s.body = s.body + [ast.Break()]
                        yield f"{s.lineno} only first of {ast.unparse(s.iter)[:50]}", do
                    if i + 1 < len(val) and isinstance(s, (ast.Expr, ast.Assign)) and isinstance(val[i + 1], (ast.Expr, ast.Assign)):
                        def do(n=n, fld=fld, i=i):
                            b = getattr(n, fld)
                            b[i], b[i + 1] = b[i + 1], b[i]
                        yield f"{s.lineno} swap with next: {ast.unparse(s)[:50]}", do
        if isinstance(n, ast.BoolOp):
            def do(n=n):
                n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield f"{line} and/or: {ast.unparse(n)[:60]}", do
            for k in range(len(n.values)):
                def do(n=n, k=k):
                    del n.values[k]
                yield f"{line} drop operand {ast.unparse(n.values[k])[:60]}", do
        if isinstance(n, ast.Compare):
            def do(n=n):
                n.ops[0] = FLIP[type(n.ops[0])]()
            yield f"{line} flip: {ast.unparse(n)[:60]}", do
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def do(n=n):
                n.op = ast.Not()
                n.operand = ast.UnaryOp(ast.Not(), n.operand)
            yield f"{line} drop not: {ast.unparse(n)[:60]}", do
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                new = not n.value
            elif isinstance(n.value, int):
                new = n.value + 1
            elif isinstance(n.value, str):
                new = n.value + "X" if n.value else "X"
            elif n.value is None:
                new = 0
            else:
                continue
            def do(n=n, new=new):
                n.value = new
            yield f"{line} constant {n.value!r:.40} -> {new!r:.40} in {ast.unparse(parents[n])[:60]}", do
        if isinstance(n, ast.IfExp):
            for side in ("body", "orelse"):
                def do(n=n, side=side):
                    n.test = ast.Constant(side == "body")
                yield f"{line} ifexp always {side}: {ast.unparse(n)[:60]}", do
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args) and not (isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "cast")):
                def do(n=n):
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                yield f"{line} swap args: {ast.unparse(n)[:60]}", do
            for k, kw in enumerate(n.keywords):
                def do(n=n, k=k):
                    del n.keywords[k]
                yield f"{line} drop keyword {kw.arg}: {ast.unparse(n)[:50]}", do
            if isinstance(n.func, ast.Attribute) and n.func.attr in METHOD:
                def do(n=n):
                    n.func.attr = METHOD[n.func.attr]
                yield f"{line} method {n.func.attr}->{METHOD[n.func.attr]}: {ast.unparse(n)[:50]}", do
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "set", "str", "reversed", "any", "all") and len(n.args) == 1:
                if n.func.id in ("any", "all"):
                    def do(n=n):
                        n.func.id = {"any": "all", "all": "any"}[n.func.id]
                else:
                    def do(n=n):
                        n.func = ast.Lambda(ast.arguments([], [ast.arg("x_")], None, [], [], None, []), ast.Name("x_", ast.Load()))
                        n.keywords = []
                yield f"{line} unwrap {n.func.id}: {ast.unparse(n)[:60]}", do
        if isinstance(n, (ast.Tuple, ast.Set, ast.List)) and len(n.elts) > 1 and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            for k in range(len(n.elts)):
                def do(n=n, k=k):
                    del n.elts[k]
                yield f"{line} drop element {ast.unparse(n.elts[k])[:40]} of {ast.unparse(n)[:40]}", do
        if isinstance(n, ast.comprehension):
            for k in range(len(n.ifs)):
                def do(n=n, k=k):
                    del n.ifs[k]
                yield f"{getattr(n.target, 'lineno', 0)} drop filter {ast.unparse(n.ifs[k])[:60]}", do
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, (ast.Add, ast.Sub)):
                def do(n=n):
                    n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
                if not any(isinstance(x, (ast.Constant,)) and isinstance(x.value, str) for x in ast.walk(n)):
                    yield f"{line} +/-: {ast.unparse(n)[:60]}", do


def all_mutants(src, only=None):
    tree = ast.parse(src)
    names = [name for name, fn in functions(tree)]
    for idx, name in enumerate(names):
        if only and name.split(".")[-1] != only and name != only:
            continue
        count = len(list(mutants(functions(tree)[idx][1])))
        for k in range(count):
            t = ast.parse(src)
            fn = functions(t)[idx][1]
            desc, do = list(mutants(fn))[k]
            do()
            ast.fix_missing_locations(t)
            try:
                text = ast.unparse(t)
                ast.parse(text)
            except Exception:
                continue
            yield f"{name} {desc}", text


def run(job):
    f, label, text = job
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(os.path.join(REPO, "modulegraph2"), os.path.join(d, "modulegraph2"), ignore=shutil.ignore_patterns("__pycache__"))
        for x in ("pyproject.toml", "setup.py", "setup.cfg"):
            if os.path.exists(os.path.join(REPO, x)):
                shutil.copy(os.path.join(REPO, x), d)
        open(os.path.join(d, "modulegraph2", f), "w").write(text)
        first = ORDER.get(f, "").split()
        other = []
        for pid in first + [p for p in ALL if p not in first]:
            try:
                r = subprocess.run([sys.executable, "-m", "sa.check", pid], cwd=ROOT, capture_output=True, text=True,
                                   env=dict(os.environ, SA_REPO=d, SA_OUT=d, PYTHONHASHSEED="0"), timeout=300)
            except subprocess.TimeoutExpired:
                other.append(f"{pid}:timeout")
                continue
            if r.returncode == 1:
                return label, pid, other
            if r.returncode != 0:
                other.append(f"{pid}:{r.returncode}")
        return label, None, other
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-f", action="append")
    ap.add_argument("-o")
    ap.add_argument("-n", type=int, default=1)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    jobs = []
    for f in a.f or ORDER:
        src = open(os.path.join(REPO, "modulegraph2", f)).read()
        jobs += [(f, f + " " + label, text) for label, text in all_mutants(src, a.o)]
    jobs = jobs[:: a.n]
    if a.count:
        print(len(jobs))
        return 0
    left = 0
    with concurrent.futures.ProcessPoolExecutor(a.j) as ex:
        for label, pid, other in ex.map(run, jobs):
            if pid is None:
                left += 1
                print("MISSED" if not other else "BROKEN", label, " ".join(other)[:60], flush=True)
    print(f"{len(jobs)} changes, {left} not reported")
    return 0


if __name__ == "__main__":
    sys.exit(main())
