"""Decide one property: python3 -m sa.check C05 [--tier quick|thorough]

Exit 0: every obligation discharged (known findings are listed); exit 1: a violation, with a
VIOLATION line; exit 2: the analysis could not be carried out (a construct it needs is gone).
"""
import argparse
import json
import os
import sys
import time
import traceback

from .repo import AnalysisBroken, Repo
from .rulekit import Check
from .rules import rule_for

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("SA_OUT", ROOT)
KNOWN = os.path.join(ROOT, "known_findings.txt")


def known_findings(pid):
    """Entries `known: property=<id> rule=<rule> construct=<construct> | <text>`."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known:"):
                head, _, text = line[6:].partition("|")
                f = dict(x.split("=", 1) for x in head.split() if "=" in x)
                if f.get("property") == pid:
                    out.append((f["rule"], f["construct"], text.strip()))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    t0 = time.time()
    sys.setrecursionlimit(20000)
    ck = None
    try:
        ck = Check(pid, Repo())
        ck.tier = a.tier
        rule_for(pid)(ck)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        if not (ck and ck.violations):
            return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid} internal error")
        if not (ck and ck.violations):
            return 2
    known = known_findings(pid)
    listed, new = [], []
    for v in ck.violations:
        k = [t for r, c, t in known if r == v["rule"] and c == v["construct"]]
        (listed if k else new).append(v)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    replay = os.path.join("evidence", f"{pid}.violations.json")
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": (f"{pid}: {len(ck.rules)} rules gave {sum(r['obligations'] for r in ck.rules.values())} obligations on {ck.npaths} "
                            f"analysed paths ({ck.nevents} effect events) through {len(ck.functions)} functions of the current source; "
                            "each obligation is decided from the facts and effects of its path, and a failed one names the construct."),
            "method": "path-sensitive interprocedural dataflow over the source of /repo/modulegraph2; rules are obligations on every path",
            "source_digest": ck.repo.digest,
            "modules_parsed": len(ck.repo.modules),
            "functions_analysed": len(ck.functions), "functions": sorted(ck.functions),
            "entry_points": ck.entries, "paths": ck.npaths, "events": ck.nevents,
            "obligations": sum(r["obligations"] for r in ck.rules.values()),
            "rules": ck.rules, "notes": ck.notes,
            "known_findings": listed,
        },
        "violations": len(new),
        "assumptions": ck.assumptions,
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w") as fp:
        json.dump(ev, fp, indent=1, default=str)
    for v in listed:
        print(f"KNOWN-FINDING: property={pid} rule={v['rule']} construct={v['construct']} {v['where']}: {v['message']}")
    for v in new:
        print(f"{v['where']}: [{v['rule']}] {v['construct']}: {v['message']}")
    if a.v or not new:
        for n, r in ck.rules.items():
            print(f"  {n}: {r['obligations']} obligations, {r['violated']} violated")
    print(f"{pid}: {ev['coverage']['functions_analysed']} functions, {ck.npaths} paths, {ev['coverage']['obligations']} obligations, "
          f"{len(new)} violations, {ev['wall_s']}s")
    if new:
        with open(os.path.join(OUT, replay), "w") as fp:
            json.dump(new, fp, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    p = os.path.join(OUT, replay)
    if os.path.exists(p):
        os.unlink(p)
    return 0


if __name__ == "__main__":
    sys.exit(main())
