"""Symbolic evaluation of the goals' predicates and shown geometries, with effect analysis of everything they call."""
import ast
from ..absint import Interp, State
from ..effects import Effects
from ..norm import Norm
from ..scan import Scan
from ..terms import *
from ..types import Ty
from .P08 import states

X, Y, TH = var("x"), var("y"), var("heading")
SELF = var("self")


def check(rep):
    rep.rule("pure", "evaluating or drawing a goal changes nothing")
    rep.rule("frozen", "a goal cannot change after construction, so that what it caches stays right")
    rep.rule("fulfilled", "a goal is fulfilled exactly where its definition says, as a function of position, heading and time only")
    rep.rule("shown", "the geometry shown is the one the goal is evaluated with")
    base = rep.ix.cls("PlanningGoal").qual
    E = Effects(Scan(rep.ix))
    subs = rep.ix.subclasses(base)
    rep.count("goal types", len([q for q in subs if q.split(".")[-1] in ("PolygonGoal", "RefLaneGoal", "PoseGoal")]), 3)
    for q in sorted(subs):
        ci = rep.ix.classes[q]
        caches = [m for c in rep.ix.mro(q) for m, f in rep.ix.classes[c].methods.items() if any("cache" in ast.unparse(d) for d in f.decorator_list)]
        rep.ob("frozen", q, rep.ix.frozen(q) or not caches, f"{q.split('.')[-1]} caches {caches} but its fields can be changed", f"{ci.mod.path}:{ci.node.lineno}")
        for c in rep.ix.mro(q):
            for m, f in rep.ix.classes[c].methods.items():
                if m in ("__init__", "__post_init__", "__new__"):
                    continue
                bad = [(t, x) for t, x in E.mut.get(f"{c}.{m}", {}).items() if t[0] in ("p", "g")]
                rep.ob("pure", f"{c}.{m}", not bad, f"changes {bad and bad[0][0][1]}: {bad and bad[0][1][0][1]}", f"{rep.ix.classes[c].mod.path}:{f.lineno}")
    qs = states(rep.ix)
    for sq in qs:
        polygon(rep, sq)
        lane(rep, sq)
        pose(rep, sq)


class Goal:
    def __init__(self, rep, cls, sq=None):
        self.rep, self.ix, self.cls = rep, rep.ix, cls
        self.sq = sq
        fs = [f for f, _, _, _ in rep.ix.dc_fields(sq)] if sq else []
        S = var("state")
        self.sub = {T("attr", S, "x"): X, T("attr", S, "y"): Y, T("attr", S, "theta" if "theta" in fs else "psi"): TH}

    def run(self, meth):
        ix = self.ix
        ov = {}
        dl = ix.cls("DgLanelet").qual

        def b(name, ret):
            fi = ix.method("DgLanelet", name)
            ps = [a.arg for a in fi.node.args.args[1:]]

            def f(ip, st, args, kwargs, node):
                d = dict(zip(ps, args[1:]))
                d.update(kwargs)
                return ret(args[0], d, st, ip)
            ov[fi.qual] = f
        b("beta_from_along_lane", lambda o, d, st, ip: T("fn", "beta_at", o, d.get("along_lane", NONE)))
        b("center_point", lambda o, d, st, ip: T("fn", "SE2", *[T("fn", "center" + c, o, d.get("beta", NONE)) for c in "xyt"]))
        b("radius", lambda o, d, st, ip: T("fn", "radius_at", o, d.get("beta", NONE)))

        def lp(o, d, st, ip):
            return T("fn", "lane_pose", o, ip.freeze(next(iter(d.values()), NONE), st))
        for n in ("lane_pose_from_SE2_generic", "lane_pose_from_SE2Transform"):
            if n in ix.classes[dl].methods:
                b(n, lp)
        ip = Interp(ix, overrides=ov)
        if self.sq:
            ip.types[var("state")] = Ty(self.sq)
        fi = ix.method(self.cls, meth)
        r = ip.run(fi)
        self.rep.funcs.update(ip.visited)
        self.where = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
        self.pc, self.raises = r.state.pc, ip.raises
        return self.canon(ip.freeze(r.value, r.state))

    def canon(self, t):
        def f(x):
            if x.op == "ite":
                return ite(*x.args)
            if x.op == "mcall" and x.args[1] in ("contains", "within") and len(x.args[2]) == 1:
                g, p = (x.args[0], x.args[2][0]) if x.args[1] == "contains" else (x.args[2][0], x.args[0])
                if g.op == "call" and g.args[0].endswith("prepared.prep"):
                    g = g.args[1][0]
                if p.op == "call" and p.args[0] == "shapely.geometry.Point":
                    c = p.args[1][0].args if len(p.args[1]) == 1 and p.args[1][0].op in ("arr", "tuple", "list") else p.args[1]
                    if len(c) == 2:
                        return T("fn", "inside", g, *c)
            if x.op == "attr" and x.args[1] == "along_lane" and x.args[0].op == "fn" and x.args[0].args[0] == "lane_pose":
                return T("fn", "along", *x.args[0].args[1:])
            d = None
            if x.op == "fn" and x.args[0] == "norm" and len(x.args) == 2:
                d = x.args[1]
            elif x.op == "fn" and x.args[0] == "sum" and len(x.args) == 2:   # of squared entries
                y = x.args[1]
                d = y.args[0] if (y.op == "pow" and isconst(y.args[1], 2)) or (y.op == "mul" and y.args[0] is y.args[1] and len(y.args) == 2) else None
            if d is not None:
                if d.op == "sub" and all(a.op == "fn" and a.args[0] == "SE2" for a in d.args):
                    (a, b) = (a.args[1:] for a in d.args)
                    sq = lambda u: T("mul", u, u)
                    tr = lambda n: sq(T("sub", T("fn", n, a[2]), T("fn", n, b[2])))
                    r = T("add", sq(T("sub", a[0], b[0])), sq(T("sub", a[1], b[1])), tr("cos"), tr("cos"), tr("sin"), tr("sin"))
                    return T("fn", "sqrt", r) if x.args[0] == "norm" else r
            return x
        return rebuild(subst(t, self.sub), f)

    def returns(self, n):
        self.rep.holds("fulfilled", f"{n} returns", Norm(), self.pc, self.where, what="returning")


def polygon(rep, sq):
    G = Goal(rep, "PolygonGoal", sq)
    v = G.run("is_fulfilled")
    n = f"PolygonGoal ({sq.split('.')[-1]})"
    rep.equiv("fulfilled", n, Norm(), v, T("fn", "inside", T("attr", SELF, "goal"), X, Y), G.where)
    G.returns(n)
    v = G.run("get_plottable_geometry")
    rep.ob("shown", n, v is T("attr", SELF, "goal"), f"the geometry shown is {show(v, 0, 4)[:200]}", G.where)


def lane(rep, sq):
    G = Goal(rep, "RefLaneGoal", sq)
    n = f"RefLaneGoal ({sq.split('.')[-1]})"
    shown = G.run("get_plottable_geometry")
    ws = G.where
    v = G.run("is_fulfilled")
    G.returns(n)
    ins = {x for x in subterms(v) if x.op == "fn" and x.args[0] == "inside"}
    if not rep.ob("fulfilled", f"{n} is decided by one region", len(ins) == 1, f"the goal is fulfilled when {show(v, 0, 4)[:200]}", G.where):
        return
    reg = ins.pop()
    L = T("attr", SELF, "ref_lane")
    P = T("attr", SELF, "goal_progress")
    along = T("fn", "along", L, T("fn", "SE2", X, Y, TH))
    want = land(T("fn", "inside", reg.args[1], X, Y), lnot(T("cmp", "lt", along, P)))
    rep.equiv("fulfilled", n, Norm(), v, want, G.where)
    rep.ob("shown", n, shown is reg.args[1], f"the geometry shown is {show(shown, 0, 4)[:200]} but the goal is evaluated with {show(reg.args[1], 0, 4)[:200]}", ws)
    # the region lies across the lane at the required progress
    g = reg.args[1]
    b = T("fn", "beta_at", L, P)
    ok = g.op == "mcall" and g.args[1] == "buffer" and g.args[2] and isconst(g.args[2][0]) and g.args[2][0].args[0] > 0 and g.args[0].op == "call" and g.args[0].args[0] == "shapely.geometry.LineString"
    if rep.ob("fulfilled", f"{n} region", ok, f"the goal region is {show(g, 0, 4)[:200]}", ws):
        pts = g.args[0].args[1][0].args
        cx, cy, ct = (T("fn", "center" + c, L, b) for c in "xyt")
        r = T("fn", "radius_at", L, b)
        ends = [(T("sub", cx, T("mul", T("mul", s, r), T("fn", "sin", ct))), T("add", cy, T("mul", T("mul", s, r), T("fn", "cos", ct)))) for s in (ONE, const(-1))]
        N = Norm(assume=[lnot(T("cmp", "is", NONE, b)), lnot(T("cmp", "is", b, NONE))])
        if rep.ob("fulfilled", f"{n} region ends", len(pts) == 2, f"the goal region runs along {len(pts)} points", ws):
            got = [[unlist(p, i) for i in (0, 1)] for p in pts]
            if all(N.diff(a, b) is None for a, b in zip(got[0], ends[1])):
                got = got[::-1]
            for p, e, s in zip(got, ends, ("left", "right")):
                for c, u, v in zip("xy", p, e):
                    rep.eq("fulfilled", f"{n} region, {s} end {c}", N, u, v, ws)


def unlist(p, i):
    if p.op == "mcall" and p.args[1] == "tolist":
        p = p.args[0]
    if p.op == "fn" and p.args[0] == "slice_of" and isconst(p.args[2]):
        return unlist(p.args[1], (p.args[2].args[0] or 0) + i)
    if p.op in ("arr", "list", "tuple"):
        return p.args[i]
    return T("item", p, const(i))


def pose(rep, sq):
    G = Goal(rep, "PoseGoal", sq)
    n = f"PoseGoal ({sq.split('.')[-1]})"
    v = G.run("is_fulfilled")
    G.returns(n)
    gp = T("attr", SELF, "goal_pose")
    g = [T("item", T("attr", gp, "p"), const(0)), T("item", T("attr", gp, "p"), const(1)), T("attr", gp, "theta")]
    d = G.canon(T("fn", "norm", T("sub", T("fn", "SE2", X, Y, TH), T("fn", "SE2", *g))))
    rep.equiv("fulfilled", n, Norm(), v, lnot(T("cmp", "lt", T("attr", SELF, "tol"), d)), G.where)
    v = G.run("get_plottable_geometry")
    c, s = T("fn", "cos", g[2]), T("fn", "sin", g[2])
    want = [c, T("neg", s), s, c, g[0], g[1]]
    ok = v.op == "fn" and v.args[0] == "affine" and len(v.args) == 8
    if rep.ob("shown", n, ok, f"the geometry shown is {show(v, 0, 4)[:200]}", G.where):
        for i, (a, b) in enumerate(zip(v.args[2:], want)):
            rep.eq("shown", f"{n} marker placed at the goal pose ({i})", Norm(), a, b, G.where)
        rep.ob("shown", f"{n} marker fixed", not contains(v.args[1], lambda x: x.op in ("var", "attr")), f"the marker {show(v.args[1], 0, 3)[:200]} depends on more than the goal pose", G.where)
