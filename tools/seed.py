"""Plant bugs: build /verif/seeded/<id>/ from a definitions file and verify each in a private copy of /repo.

python3 tools/seed.py DEFS.py [id ...]      DEFS defines S = [dict(id, property, edits={file: [(old, new)]},
demo=<python source>, needs, breaks)].  A demo exits 0 on the unchanged tree and nonzero with the change.
A seed is kept only when it applies, builds, passes the stable tests and the demo tells the trees apart.
Afterwards the check of the property is run on the changed tree and the outcome is printed.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH PYTHONHOME
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cd "$t" && timeout 250 /opt/venv/bin/python "$d/demo.py" "$t"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def inns(copy, script, timeout=1000):
    return sh(["unshare", "-Urm", "bash", "-c", f"mount --bind {copy} /repo && cd /repo && {script}"], timeout=timeout)


def one(s):
    d = tempfile.mkdtemp(prefix="seed")
    try:
        copy = os.path.join(d, "repo")
        sh(["cp", "-a", "/repo", copy])
        for fn, subs in s["edits"].items():
            p = os.path.join(copy, "modulegraph2", fn)
            t = open(p).read()
            for old, new in subs:
                if t.count(old) != 1:
                    return s["id"], False, f"edit matches {t.count(old)} times: {old[:50]!r}"
                t = t.replace(old, new)
            open(p, "w").write(t)
        diff = sh(["git", "-C", copy, "diff"]).stdout
        # lines added by fix commits may not be the ones changed
        base = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
        for fn in s["edits"]:
            bl = sh(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", "modulegraph2/" + fn]).stdout.splitlines()
        out = os.path.join(d, "seed")
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        clean = os.path.join(d, "clean")
        sh(["cp", "-a", "/repo", clean])
        r = inns(clean, f"bash {out}/demo.sh", 300)
        if r.returncode:
            return s["id"], False, "demo fails on the clean tree: " + (r.stdout + r.stderr)[-600:]
        r = inns(copy, "bash /opt/vp/build.sh", 300)
        if r.returncode:
            return s["id"], False, "does not build: " + r.stderr[-300:]
        r = inns(copy, f"bash {out}/demo.sh", 300)
        if r.returncode == 0:
            return s["id"], False, "demo passes with the change"
        demo_out = (r.stdout + r.stderr).strip().splitlines()[-1:]
        if "--notest" not in sys.argv:
            inns(copy, f"bash /opt/vp/test.sh {d}/out.json > {d}/log 2>&1")
            b = json.load(open("/opt/vp/BASELINE.json"))
            o = json.load(open(d + "/out.json"))
            miss = [t for t in b["stable"] if t not in set(o["passed"])]
            if miss:
                return s["id"], False, f"{len(miss)} tests fail: {miss[:3]}"
        r = sh([sys.executable, "-m", "sa.check", s["property"]], cwd=ROOT, env=dict(os.environ, SA_REPO=copy, SA_OUT=d))
        verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, "NO ANSWER")
        dst = os.path.join(ROOT, "seeded", s["id"])
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        why = [l for l in r.stdout.splitlines() if ": [" in l][:1]
        return s["id"], True, f"{verdict} {s['property']} {why} demo: {demo_out}"
    finally:
        shutil.rmtree(d)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    todo = [s for s in ns["S"] if not want or s["id"] in want]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for i, ok, msg in ex.map(one, todo):
            print(("kept " if ok else "REJECTED ") + i + ": " + msg[:700], flush=True)


main()
