"""Package-wide alias and mutation analysis: shared objects are never modified, cached values never go stale, and a run starts from a clean simulator."""
import ast
from ..scan import Scan
from ..effects import Effects
from ..types import decos
from ..simx import *


def check(rep):
    rep.rule("shared", "no object bound at module level, in a class body or as a default is modified by any function, and no such name is rebound")
    rep.rule("cache", "a cached value only depends on data that never changes after construction and is never modified by who gets it")
    rep.rule("reset", "a run replaces everything the simulator keeps before its first step")
    sc = Scan(rep.ix)
    sc.infer_sets()
    E = Effects(sc)
    rep.funcs |= {u.qual for u in sc.units}
    hits = {}
    for q, m in E.mut.items():
        for t, xs in m.items():
            if t[0] == "g":
                hits.setdefault(t[1], []).append((q, xs[0]))
    for g in sorted(E.shared):
        xs = hits.pop(g, [])
        rule = "cache" if g.endswith("()") else "shared"
        if not xs:
            rep.ob(rule, g, True)
        for q, (n, what) in xs:
            rep.ob(rule, f"{g} in {q}", False, f"{q} modifies {g}, which is shared: {what}", sc.byqual[q].where(n))
    for g, xs in sorted(hits.items()):
        for q, (n, what) in xs:
            rep.ob("shared", f"{g} in {q}", False, what, sc.byqual[q].where(n))
    # module and class bodies may only build, not change, other modules' objects
    rep.counts["functions"] = len(E.mut)
    rep.counts["shared mutable objects"] = len(E.shared)
    stale(rep, sc)
    reset(rep, sc, E)


def selfattrs(sc, q, name, seen):
    """attributes of self a method reads, through its own class's methods"""
    k = sc.ix.find_method(q, name)
    if k is None or (k[0].qual, name) in seen:
        return set()
    seen.add((k[0].qual, name))
    out = set()
    for n in ast.walk(k[1]):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
            if sc.ix.find_method(q, n.attr):
                out |= selfattrs(sc, q, n.attr, seen)
            else:
                out.add(n.attr)
    return out


def stale(rep, sc):
    writes = {}
    for u in sc.units:
        for n in u.walk():
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(u.node, ast.FunctionDef) and u.node.name in ("__init__", "__post_init__", "__new__", "__setstate__") and isinstance(n.value, ast.Name) and n.value.id == "self":
                    continue
                t = sc.type(u, n.value)
                if t is not None and t.name in sc.ix.classes:
                    for c in sc.ix.mro(t.name):
                        writes.setdefault((c, n.attr), []).append((u, n))
                    for c in sc.ix.subclasses(t.name):
                        writes.setdefault((c, n.attr), []).append((u, n))
    k = 0
    for u in sc.units:
        if not isinstance(u.node, ast.FunctionDef) or u.cls is None or not set(decos(u.node)) & {"cached_property", "lru_cache", "cache", "cached"}:
            continue
        k += 1
        for a in sorted(selfattrs(sc, u.cls.qual, u.node.name, set())):
            w = writes.get((u.cls.qual, a), [])
            rep.ob("cache", f"{u.qual} reads {a}", not w, f"{u.qual} keeps a value computed from {a}, which {w[0][0].qual if w else ''} changes later", w[0][0].where(w[0][1]) if w else "")
    rep.counts["cached methods"] = k


def reset(rep, sc, E):
    S = SimRun(rep.ix)
    rep.saw(S.res)
    st = S.ip.seg["stinit"]
    used = {}
    for q in [S.cls.qual, *rep.ix.subclasses(S.cls.qual)]:
        for m in rep.ix.classes[q].methods.values():
            for n in ast.walk(m):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and not rep.ix.find_method(q, n.attr):
                    used.setdefault(n.attr, n)
    stored = {n.attr for u in sc.units if isinstance(u.node, ast.FunctionDef) and u.node.name != "__init__" for n in u.walk()
              if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in used and (t := sc.type(u, n.value)) is not None and t.name == S.cls.qual}
    changed = {}
    for e in S.iter + S.final + S.init:
        for a in used:
            f = T("attr", S.self, a)
            if e.kind in ("store", "setitem", "mutate") and e.ftarget is not None and contains(clean(e.ftarget), lambda x: x is f):
                changed.setdefault(a, e)
    fresh = 0
    for a, n in sorted(used.items()):
        v = S.ip.hget(st, S.self, a)
        w = f"{S.cls.mod.path}:{n.lineno}"
        if v is None:
            rep.ob("reset", a, a not in stored and a not in changed, f"the simulator keeps {a} from an earlier run", w)
            continue
        fresh += 1
        old = contains(S.ip.freeze(v, st), lambda x: x.op == "attr" and x.args[0] is S.self)
        rep.ob("reset", a, not old, f"{a} is built from what an earlier run left", w)
        if v.op != "ref":
            rep.ob("reset", f"{a} is new", v.op not in ("attr", "item", "global"), f"{a} is not a new object", w)
    rep.count("attributes reset by run", fresh, 1)
