"""Source of MANIFEST.json (run: python3 tools/mkmanifest.py > MANIFEST.json)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.rules import GROUPS, available  # noqa: E402

TRUST = ("Trusted: the analyser in sa/ (its model of Python's statements, of the library calls the package makes and of the "
         "objectgraph methods), and that the package is not monkey-patched at run time. ")

NOTE = {
    "C01": "Decided per statement class of the grammar of the interpreter running the check and per path of the scan loop; the loop is summarised by one generic work item.",
    "C02": "As C01; every chain of enclosers follows from the per-step rules by induction over the work queue.",
    "C03": "Decided per path of the instruction loop for every opcode class; opcode meanings come from a table (dis/opcode) for Python 3.10-3.12.",
    "C04": "As C03, crossed with the position of the code object.",
    "C18": "One known finding is listed in known_findings.txt.",
    "C32": "Decided per path and per documented name, against a table of six's names kept in the check; constant tables are computed from their source.",
    "C33": "Decided by constant folding of the table's source for six platforms and five Python releases, against a table of what CPython's C code loads kept in the check.",
    "C31": "Decides absence of recursion through the call graph; it does not bound the depth of package nesting (dots in one name).",
}

NA = {
    "C90": "Which modules a program imports depends on run-time values and on code (importlib, __import__, C extensions) the library does not see; no sound static argument about modulegraph2's source can bound it.",
    "C91": "Order independence relates two executions over unbounded histories; several operations are order dependent by design (excludes before first use, hooks). A static proof of confluence is out of reach here.",
    "C92": "The builder swaps entries of the process-wide sys.modules and sys.path by design and documents no thread safety; interleavings with the interpreter's import locks cannot be decided from this source.",
    "C93": "Asymptotic cost depends on the cost of the import system, the file system and third-party objectgraph; not derivable from this source.",
}


def main():
    have = set(available())
    checks, na = [], []
    for ids in GROUPS.values():
        for i in ids:
            if i in have:
                checks.append({
                    "property": i, "quick_cmd": f"python3 -m sa.check {i} --tier quick",
                    "thorough_cmd": f"python3 -m sa.check {i} --tier thorough",
                    "evidence_file": f"evidence/{i}.json",
                    "technique": "path-sensitive interprocedural dataflow and effect analysis over the syntax tree (custom static analyser)" if i != "C31"
                    else "call-graph reachability over the syntax tree (custom static analyser)",
                    "level": "other",
                    "level_note": TRUST + NOTE.get(i, "Decided per path of the named functions with each loop summarised by a generic iteration."),
                })
            else:
                na.append({"property": i, "reason": "check not built yet"})
    na += [{"property": k, "reason": v} for k, v in NA.items()]
    checks.sort(key=lambda c: c["property"])
    print(json.dumps({
        "version": 1,
        "setup_cmd": "python3 -m compileall -q sa",
        "checks": checks,
        "not_applicable": na,
        "notes": "Static analysis only: /repo's source is parsed on every run and never imported or executed. No hooks in /repo.",
    }, indent=1))


main()
