"""Run the checks on edited copies of the package: bugs must be reported, rewrites must stay quiet.

python3 tools/selftest.py [filter ...]   (filters match variant ids or property ids)

Variants live in tools/variants/*.py as lists V of
(id, "bug"|"ok", properties, file, [(old, new), ...]); `ok` variants run every property.
"""
import concurrent.futures
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
sys.path.insert(0, ROOT)
from sa.rules import available  # noqa: E402

ALL = available()


def load(flt):
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, "tools", "variants", "*.py"))):
        spec = importlib.util.spec_from_file_location("v", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.V
    if flt:
        out = [v for v in out if any(v[0].startswith(x) or x in (v[2] or ()) for x in flt)]
    return out


def run(v):
    vid, kind, props, fn, subs = v[:5]
    d = tempfile.mkdtemp(prefix="sav")
    try:
        shutil.copytree(os.path.join(REPO, "modulegraph2"), os.path.join(d, "modulegraph2"), ignore=shutil.ignore_patterns("__pycache__"))
        edits = [(fn, o, n) for o, n in subs] if fn else subs
        for f, old, new in edits:
            p = os.path.join(d, "modulegraph2", f)
            s = open(p).read()
            if s.count(old) < 1:
                return vid, kind, [("?", "edit does not apply: " + old[:60])]
            s = s.replace(old, new)
            try:
                compile(s, p, "exec")
            except SyntaxError as e:
                return vid, kind, [("?", f"syntax error {e}")]
            open(p, "w").write(s)
        res = []
        for pid in (props if kind == "bug" else ALL):
            if pid not in ALL:
                continue
            try:
                r = subprocess.run([sys.executable, "-m", "sa.check", pid], cwd=ROOT, capture_output=True, text=True,
                                   env=dict(os.environ, SA_REPO=d, SA_OUT=d, PYTHONHASHSEED="0"), timeout=300)
            except subprocess.TimeoutExpired:
                res.append((pid, "timeout"))
                continue
            hit = r.returncode == 1
            if kind == "bug" and not hit or kind == "ok" and r.returncode != 0:
                res.append((pid, f"rc={r.returncode} " + " / ".join((r.stdout + r.stderr).strip().splitlines()[-6:])[:1200]))
        return vid, kind, res
    finally:
        shutil.rmtree(d)


def main():
    vs = load(sys.argv[1:])
    bad = 0
    with concurrent.futures.ProcessPoolExecutor(8) as ex:
        for vid, kind, res in ex.map(run, vs):
            for pid, msg in res:
                bad += 1
                print(f"{'MISSED' if kind == 'bug' else 'ALARM'} {vid} {pid}: {msg}")
    print(f"{len(vs)} variants, {bad} problems")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
