"""Write sa/names.json (see sa/align.py): python3 tools/mknames.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.environ["SA_NO_ALIGN"] = "1"
from sa import align, repo  # noqa: E402

r = repo.Repo()
with open(align.FILE, "w") as fp:
    json.dump(align.describe({m: i.tree for m, i in r.modules.items()}), fp, separators=(",", ":"), sort_keys=True)
    fp.write("\n")
