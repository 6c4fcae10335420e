"""Property rules: one function per property, grouped by part of the package."""
import importlib

GROUPS = {
    "scan": ("C01", "C02", "C03", "C04"),
    "build": ("C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"),
    "links": ("C27", "C30", "C31", "C34", "C35"),
    "nodes": ("C17", "C18", "C19"),
    "dists": ("C20", "C21"),
    "output": ("C22", "C23", "C24", "C25", "C26"),
    "hooks": ("C28", "C29"),
    "moves": ("C32",),
    "tables": ("C33",),
}


def rule_for(pid):
    for g, ids in GROUPS.items():
        if pid in ids:
            return getattr(importlib.import_module(f"{__name__}.{g}"), pid)
    raise KeyError(pid)


def available():
    out = []
    for g, ids in GROUPS.items():
        try:
            m = importlib.import_module(f"{__name__}.{g}")
        except ModuleNotFoundError as e:
            if e.name != f"{__name__}.{g}":
                raise
            continue
        out += [i for i in ids if hasattr(m, i)]
    return out
