"""Order, completeness and results of the callback lists (C26; used by C10 and C13)."""
import ast

from ..rulekit import *  # noqa: F401,F403
from ..rulekit import C, NONE, SELF, attr, pretty, walk, is_const
from ..repo import AnalysisBroken


def method(ck, cls, name):
    ci = ck.repo.classes.get(cls)
    fi = ci and ck.repo.find_method(ci, name)
    if fi is None:
        raise AnalysisBroken(f"{cls}.{name} not found")
    return fi


def typed(cls):
    def init(eng, st, fr):
        st.types[SELF] = frozenset([cls])
    return init


def add_side(ck, rule, cls):
    """('front'|'back', list attribute) for where add() puts a callback."""
    fi = method(ck, cls, "add")
    fn = ("sym", [x for x in fi.params() if x != "self"][0])
    res = set()
    for p in ck.run(ck.engine(), fi, init=typed(cls), label=f"{cls}.add"):
        cons = f"{cls}.add"
        side = None
        n = 0
        for e in p.events:
            a = tuple(e.args) if not isinstance(e.args, dict) else tuple(e.args.values())
            if e.kind == "mut" and fn in a and e.recv[0] == "attr":
                n += 1
                ln = ("call", "len", (e.recv,), (), 0)
                side = {"append": "back", "appendleft": "front"}.get(e.fn) or ("front" if a[0] == C(0) else "back" if a[0] == ln else None) if e.fn in ("append", "appendleft", "insert") else None
                L = e.recv
            elif e.kind == "setattr" and e.recv == SELF:
                v = e.args[-1]
                o = p.st.cont.get(v)
                L = ("attr", SELF, e.fn)
                if o is not None:
                    vals = [(i.mode, i.val) for i in o]
                    if vals == [("item", fn), ("seg", L)]:
                        side, n = "front", n + 1
                    elif vals == [("seg", L), ("item", fn)]:
                        side, n = "back", n + 1
            elif e.kind == "setpart" and fn in [i.val for v in a for i in p.st.cont.get(v, ())]:
                L, n = e.recv, n + 1
                t = str(e.fn) + pretty(a[0])
                side = "front"
        ok = n == 1 and p.kind == "ret"
        ck.ob(rule, ok, cons, p.where(), f"adding a callback does not put it into the list exactly once ({p.cond_text()})")
        if ok:
            ck.ob(rule, side is not None, cons, p.where(), "a callback is added neither at the front nor at the back")
            res.add((side, L))
    return res.pop() if len(res) == 1 else (None, None)


def index_of(t, L):
    """(direction) when t is L[i] with i running over all indexes of L."""
    if t[0] != "item" or t[1] != L or t[2][0] != "elem":
        return None
    r = t[2][1]
    if r[0] == "order_of":
        r = r[2]
    return "forward" if r[0] in ("call", "range") else None


def call_rule(ck, rule, cls, first):
    side, L = add_side(ck, rule, cls)
    fi = method(ck, cls, "__call__")
    cons = f"{cls}.__call__"
    ps = fi.node.args
    va, kw = ps.vararg and ("sym", ps.vararg.arg), ps.kwarg and ("sym", ps.kwarg.arg)
    ran = 0
    for p in ck.run(ck.engine(), fi, init=typed(cls), label=cons):
        w = p.where()
        if p.kind == "raise":
            ck.ob(rule, False, cons, w, f"calling the list raises {pretty(p.value)}")
            continue
        dyn = [e for e in p.events if e.kind == "dyn"]
        if not dyn:
            ck.ob(rule, any(k[0] == "nonempty" and not v and (L is None or L in walk(k[1])) for k, v in p.st.facts.items()) or (L is not None and p.truthy(L) is False),
                  cons, w, f"the callbacks are not called ({p.cond_text()})")
            ck.ob(rule, p.value == NONE, cons, w, "an empty list answers something")
            continue
        ran += 1
        ck.ob(rule, len(dyn) == 1, cons, w, "a callback is called more than once per invocation")
        e = dyn[0]
        ok = bool(e.loops) and (e.recv[0] == "elem" or index_of(e.recv, L)) and L is not None and any(L in walk(x) for x in e.loops)
        ck.ob(rule, ok, cons, e.where, f"what is called is not each callback of the list but {pretty(e.recv)}")
        a = tuple(e.args)
        kws = tuple(e.kw)
        ok = (va is None or a == (("star", va),)) and (kw is None or (len(kws) == 1 and kws[0][1] == kw))
        ck.ob(rule, ok and (va is not None or not a), cons, e.where, "the arguments are not passed through as given")
        rev = sum(1 for x in p.events if x.kind == "order" and x.fn == "reversed") + sum(1 for x in e.loops for y in walk(x) if y and y[0] == "c" and y[2] == -1)
        copy = any(x.kind == "order" and x.fn in ("copy",) for x in p.events)
        odd = [x for x in p.events if x.kind == "order" and x.fn not in ("reversed", "copy")]
        ck.ob(rule, not odd, cons, w, "the callbacks are called in another order than that of their registration")
        if side is not None:
            ck.ob(rule, (side == "front") == (rev % 2 == 0), cons, e.where, "the callbacks are not called newest first")
            ck.ob(rule, copy or not (side == "front"), cons, e.where, "a callback that registers another one while it runs is called again")
        ends = [x for x in p.evs("loopend") if x.recv in e.loops]
        if first:
            none = p.is_none(e.ret)
            if none is False:
                ck.ob(rule, p.value == e.ret, cons, w, f"the first answer is not the result ({p.cond_text()})")
                ck.ob(rule, all(x.fn != "exhausted" for x in ends), cons, w, "callbacks are called after one has answered")
            elif none is True:
                ck.ob(rule, p.value == NONE or p.value == e.ret, cons, w, "no callback answered, yet there is a result")
                ck.ob(rule, all(x.fn == "exhausted" for x in ends), cons, w, "callbacks are left out after one without answer")
            else:
                ck.ob(rule, False, cons, w, f"whether an answer is None is not what decides ({p.cond_text()})")
        else:
            ck.ob(rule, all(x.fn == "exhausted" for x in ends) and not cond_facts(p, e), cons, w, f"not every callback is called ({p.cond_text()})")
    ck.ob(rule, ran > 0, cons, cons, "no callback is ever called")


def cond_facts(p, e):
    return [k for k in p.st.facts if k[0] != "nonempty" and e.ret in walk(k)]


def clear_rule(ck, rule, cls, L=None):
    fi = method(ck, cls, "clear")
    cons = f"{cls}.clear"
    for p in ck.run(ck.engine(), fi, init=typed(cls), label=cons):
        ok = False
        for e in p.events:
            if e.kind == "mut" and e.fn == "clear" and e.recv[0] == "attr":
                ok = True
            if e.kind in ("delpart", "setpart", "ddel", "del") and e.recv is not None and e.recv[0] == "attr":
                ok = True
            if e.kind == "setattr" and e.recv == SELF and (p.st.cont.get(e.args[-1]) == () or e.args[-1] == ("tup", ())):
                ok = True
        ck.ob(rule, ok and p.kind == "ret", cons, p.where(), "clearing does not empty the list")


def own_rule(ck, rule, cls, attrs):
    """State that changes belongs to one instance: the constructor makes it, nothing in the class or module is used."""
    ci = ck.repo.classes[cls]
    fi = ci.methods.get("__init__")
    shared = {}
    for c in ck.repo.mro(ci):
        for x in c.node.body:
            t = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AnnAssign) and x.value is not None else []
            for y in t:
                if isinstance(y, ast.Name):
                    shared.setdefault(y.id, (c, x))
    for a in sorted(attrs):
        cons = f"{cls}.{a}"
        vals = []
        if fi is not None:
            for p in ck.run(ck.engine(), fi, label=f"{cls}.__init__"):
                if p.kind == "ret":
                    vals.append(p.st.heap.get((SELF, a)))
        if None in vals or not vals:
            where = f"{shared[a][0].module.path}:{shared[a][1].lineno}" if a in shared else cons
            ck.ob(rule, a not in shared, cons, where, f"all instances share one {a}, what one does changes the others")
        else:
            bad = [v for v in vals if v[0] not in ("obj", "call", "new", "inst")]
            ck.ob(rule, not bad, cons, cons, f"{a} is {pretty(bad[0]) if bad else ''}, which does not belong to the instance")
