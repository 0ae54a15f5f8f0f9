"""Symbolic construction of a scenario: what its obstacle sequence and its spatial index contain, in which order; and who can change them."""
import ast
from ..absint import Interp, State
from ..enumx import generators
from ..norm import Norm
from ..scan import Scan
from ..simx import rec_field
from ..terms import *
from ..types import Ty

S, O, B = var("scenario"), var("obstacles"), var("buffer")


def check(rep):
    rep.rule("aligned", "the spatial index is built from the shapes of the obstacle sequence, one each, in the same order")
    rep.rule("content", "the obstacles are the given ones, plus the road boundaries iff they are requested and there is a scenario")
    rep.rule("fixed", "obstacle sequence, spatial index and obstacle shapes are only set on construction, and the sequence is immutable")
    built(rep)
    fixed(rep)


def built(rep):
    for sc in (S, NONE):
        for ob in (O, NONE):
            for want in (TRUE, FALSE):
                case(rep, sc, ob, want)


def case(rep, sc, ob, want):
    ix = rep.ix
    q = ix.cls("DgScenario").qual
    so = ix.cls("StaticObstacle").qual
    bb = ix.func("build_road_boundary_obstacle")
    ip = Interp(ix, opaque=(bb.qual,))
    ip.types[O] = Ty("list", [Ty(so)])
    ip.types[S] = Ty("commonroad.scenario.scenario.Scenario")
    st = State()
    name = f"{'with' if sc is S else 'without'} scenario, {'with' if ob is O else 'without'} obstacles, boundaries {'' if want is TRUE else 'not '}requested"
    ci = ix.cls("DgScenario")
    w = f"{ci.mod.path}:{ci.node.lineno} {q}"
    bound = want is TRUE and sc is S
    o = ip.instantiate(q, (), (("scenario", sc), ("static_obstacles", ob), ("use_road_boundaries", const(want is TRUE)), ("road_boundaries_buffer", B)), st, None)
    rep.funcs.update(ip.visited)
    for x in ip.raises:
        if x.value.op == "call" and x.value.args[0] in ("builtins.TypeError", "builtins.AttributeError", "dataclasses.FrozenInstanceError"):
            rep.ob("content", f"construction {name}", False, f"raises {show(x.value, 0, 2)}", w)
    N = Norm(assume=[lnot(T("cmp", "is", NONE, S)), lnot(T("cmp", "is", S, NONE)), lnot(T("cmp", "is", NONE, O)), lnot(T("cmp", "is", O, NONE)),
                     O, S])
    seq = strip(ip.freeze(ip.getattr(o, "static_obstacles", st), st))
    tree = ip.freeze(ip.getattr(o, "strtree_obstacles", st), st)
    raw = ip.freeze(ip.getattr(o, "static_obstacles", st), st)
    immut = raw.op == "tuple" or (raw.op == "fn" and raw.args[0] == "tuple") or raw.op == "comp"
    rep.ob("fixed", f"obstacle sequence immutable, {name}", not mutable(ip, o, st), f"static_obstacles is the mutable {show(raw, 0, 3)[:100]}", w)
    args = list(tree.args[1]) + [v for k, v in tree.args[2] if k in ("geoms", "geometries")] if tree.op == "call" else []
    if not rep.ob("aligned", f"index, {name}", tree.op == "call" and tree.args[0].endswith("STRtree") and len(args) >= 1, f"the spatial index is {show(tree, 0, 3)[:200]}", w):
        return
    shapes = strip(args[0])
    a, b = parts(N, seq), parts(N, shapes)
    direct = shapes.op == "comp" and strip(shapes.args[2]) is seq and shapes.args[3] is TRUE and shapes.args[4] is T("attr", T("elem", shapes.args[2], shapes.args[1]), "shape")
    opaque = lambda t: contains(t, lambda x: x.op == "fn" and x.args[0] in ("sorted", "set", "frozenset", "reversed"))
    ok = direct or (not opaque(seq) and not opaque(shapes) and len(a) == len(b))
    rep.ob("aligned", f"number of groups, {name}", ok, f"the obstacles are {show(seq, 0, 4)[:200]}, the index holds {show(shapes, 0, 4)[:200]}", w)
    if ok and not direct:
        for i, (x, y) in enumerate(zip(a, b)):
            same = x[0] == y[0] and Norm().equiv(x[1], y[1]) is None and shape(x[2]) is y[2]
            rep.ob("aligned", f"group {i}, {name}", same, f"obstacle {show(x[2], 0, 3)[:120]} for {[show(s, 0, 3)[:60] for _, s in x[0]]} but indexed shape {show(y[2], 0, 3)[:120]} for {[show(s, 0, 3)[:60] for _, s in y[0]]}", w)
    given, lanes = [], []
    for loops, cond, val in a:
        src = loops[0][1] if len(loops) == 1 else None
        e = loops[0][0] if len(loops) == 1 else None
        if val is O or (src is O and val is e):
            given.append(cond)
        elif src is not None and val.op == "rec" and val.args[0] == so and rec_field(val, "shape") is e and boundary(src, bb, B):
            lanes.append(cond)
        else:
            rep.ob("content", f"obstacle {show(val, 0, 2)[:60]}, {name}", False, f"the scenario contains {show(val, 0, 4)[:200]}", w)
    rep.equiv("content", f"given obstacles, {name}", N, lor(*given), TRUE if ob is O else FALSE, w)
    rep.equiv("content", f"road boundaries, {name}", N, lor(*lanes), TRUE if bound else FALSE, w)
    rep.ob("content", f"each once, {name}", len(given) <= 1 and len(lanes) <= 1, "obstacles are listed twice", w)


def mutable(ip, o, st):
    v = ip.getattr(o, "static_obstacles", st)
    vs = [v]
    while vs:
        x = vs.pop()
        if x.op == "ite":
            vs += x.args[1:]
        elif (x.op == "ref" and x.args[1] in ("#list", "#dict", "#set")) or x is O:
            return True
    return False


def boundary(src, bb, buf):
    if src.op == "item" and src.args[1] is ZERO:
        c = src.args[0]
        if c.op == "call" and c.args[0] == bb.qual:
            d = dict(c.args[2])
            for p, v in zip([p.arg for p in bb.node.args.args], c.args[1]):
                d[p] = v
            return d.get("scenario") is S and d.get("buffer") is buf
    return False


def strip(t):
    while t.op == "fn" and t.args[0] in ("list", "tuple") and len(t.args) == 2:
        t = t.args[1]
    if t.op == "ite":
        return ite(t.args[0], strip(t.args[1]), strip(t.args[2]))
    return t


def shape(v):
    return rec_field(v, "shape") if v.op == "rec" else T("attr", v, "shape")


def parts(N, t):
    """generators that can occur, whole sequences being read element by element"""
    out = []
    for g in generators(t):
        loops, cond, val = g[0], g[1], g[2]
        if N.equiv(cond, FALSE) is None:
            continue
        if N.equiv(cond, TRUE) is None:
            cond = TRUE
        if val is None:
            e = T("elem", g[3], 0)
            loops, val = loops + ((e, g[3]),), e
        # number loops in one way
        ren = {}
        for i, (e, s) in enumerate(loops):
            ren[e] = T("elem", subst(s, ren), i)
        out.append((tuple((ren[e], ren[e].args[0]) for e, _ in loops), subst(cond, ren), subst(val, ren)))
    return out


def fixed(rep):
    sc = Scan(rep.ix)
    rep.funcs |= {u.qual for u in sc.units}
    q, so = rep.ix.cls("DgScenario").qual, rep.ix.cls("StaticObstacle").qual
    names = {"static_obstacles": q, "strtree_obstacles": q, "shape": so}
    n = 0
    for u in sc.units:
        for x in u.walk():
            tgt = None
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in names:
                tgt, name = x.value, x.attr
            elif isinstance(x, ast.Call) and ast.unparse(x.func) in ("setattr", "object.__setattr__", "delattr") and len(x.args) >= 2 and isinstance(x.args[1], ast.Constant) and x.args[1].value in names:
                tgt, name = x.args[0], x.args[1].value
            if tgt is None:
                continue
            n += 1
            ty = sc.type(u, tgt)
            c = ty.name if ty is not None else None
            own = u.cls is not None and u.cls.qual == names[name] and u.qual.split(".")[-1] in ("__post_init__", "__init__", "__setstate__", "__new__")
            if own or (c is not None and c in rep.ix.classes and names[name] not in rep.ix.mro(c)) or (name == "shape" and c is None):
                continue
            if c is None and u.cls is not None and isinstance(tgt, ast.Name) and tgt.id == "self" and names[name] not in rep.ix.mro(u.cls.qual):
                continue
            rep.ob("fixed", f"{u.qual}: {ast.unparse(tgt)[:40]}.{name}", False, f"{name} of {ast.unparse(tgt)[:60]} is changed after construction", u.where(x))
    rep.ob("fixed", "assignments of obstacles, index and shapes", True)
    rep.count("assignments to these attributes", n, 2)
