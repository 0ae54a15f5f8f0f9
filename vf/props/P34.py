"""Symbolic evaluation of every pose operation at arbitrary poses and points, compared entry by entry with the rigid motion it stands for."""
from ..absint import Interp, State
from ..calls import matmul, se2mat, mat_inv, se_exp
from ..norm import Norm
from ..terms import *
from ..types import Ty


def pose(k):
    return T("fn", "SE2", var("x" + k), var("y" + k), var("th" + k))


class Run:
    def __init__(self, rep):
        self.rep, self.ix = rep, rep.ix
        self.fresh()

    def fresh(self):
        self.ip, self.st = Interp(self.ix), State()

    def go(self, name, *args, **kw):
        self.fresh()
        fi = self.ix.func(name)
        v = self.ip.call(T("func", fi.qual), args, tuple(sorted(kw.items())), self.st, None)
        self.where = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
        self.done(name)
        return v

    def done(self, name):
        bad = [e for e in self.ip.effects if e.kind in ("store", "setitem", "mutate") and root(e.target).op in ("var", "fn")]
        self.rep.ob("pure", name, not bad, f"{bad[:1]!r}", bad[0].where() if bad else self.where)
        self.rep.ob("total", name, self.st.pc is TRUE, f"returns only if {show(self.st.pc)[:200]}", self.where)
        self.rep.funcs |= self.ip.visited
        self.rep.notes += self.ip.notes

    def at(self, v, *ks):
        for k in ks:
            v = self.ip.getitem(v, const(k), self.st)
        return self.ip.freeze(v, self.st)

    def at2(self, v, i, j):
        return self.ip.freeze(self.ip.getitem(v, T("tuple", const(i), const(j)), self.st), self.st)


def check(rep):
    ix = rep.ix
    rep.rule("point", "moving points rotates by the heading, then translates")
    rep.rule("shape", "moving shapes rotates by the heading, then translates")
    rep.rule("relative", "base times relative pose is the pose")
    rep.rule("transform", "SE2Transform keeps position and heading of what it is made from")
    rep.rule("distance", "distances between poses are those of their positions (or their relative motion)")
    rep.rule("interpolate", "interpolation moves along the relative motion")
    rep.rule("trajectory", "a moved trajectory has every state's pose moved and everything else kept")
    rep.rule("extract", "the pose of a state is its position and heading")
    rep.rule("pure", "pose operations change nothing")
    rep.rule("total", "pose operations accept every pose")
    N = Norm()
    R = Run(rep)
    q, r = pose("0"), pose("1")
    Q = se2mat(q)

    def moved(p):
        return [T("add", T("add", T("mul", Q.args[i].args[0], p[0]), T("mul", Q.args[i].args[1], p[1])), Q.args[i].args[2]) for i in (0, 1)]
    # points
    p = var("p")
    v = R.go("SE2_apply_T2", q, p)
    for i, c in enumerate("xy"):
        rep.eq("point", f"SE2_apply_T2-{c}", N, R.at(v, i), moved([T("item", p, ZERO), T("item", p, ONE)])[i], R.where)
    for n in (1, 3):
        pts = [(var(f"a{k}"), var(f"b{k}")) for k in range(n)]
        v = R.go("transform_xy", q, T("tuple", *[T("tuple", *x) for x in pts]))
        c = R.ip.content(v, R.st)
        rep.ob("point", f"transform_xy-count-{n}", c is not None and c.op in ("tuple", "list") and len(c.args) == n, f"gives {show(R.ip.freeze(v, R.st))[:200]}", R.where)
        for k in range(n):
            for i in (0, 1):
                rep.eq("point", f"transform_xy-{n}-{k}-{'xy'[i]}", N, R.at(v, k, i), moved(pts[k])[i], R.where)
    # shapes
    g = var("g")
    v = R.ip.freeze(R.go("apply_SE2_to_shapely_geo", g, q), R.st)
    ok = v.op == "fn" and v.args[0] == "affine" and v.args[1] is g
    rep.ob("shape", "apply_SE2_to_shapely_geo", ok, f"gives {show(v)[:300]}", R.where)
    if ok:
        want = [Q.args[0].args[0], Q.args[0].args[1], Q.args[1].args[0], Q.args[1].args[1], Q.args[0].args[2], Q.args[1].args[2]]
        for k, a, b in zip(("xx", "xy", "yx", "yy", "x-offset", "y-offset"), v.args[2:], want):
            rep.eq("shape", f"apply_SE2_to_shapely_geo-{k}", N, a, b, R.where)
    # relative pose
    v = R.go("relative_pose", q, r)
    back = matmul(q, v, R.ip, R.st)
    W = se2mat(r)
    for i in range(3):
        for j in range(3):
            rep.eq("relative", f"relative_pose-{i}{j}", N, R.at2(back, i, j), W.args[i].args[j], R.where)
    # distances
    v = R.ip.freeze(R.go("norm_between_SE2value", q, r), R.st)
    d = [T("sub", var(c + "0"), var(c + "1")) for c in "xy"]
    rep.eq("distance", "norm_between_SE2value", N, T("pow", v, const(2)), T("add", *[T("mul", x, x) for x in d]), R.where)
    # interpolation: along the relative motion, from the first pose to the second
    al = var("alpha")
    v = R.go("SE2_interpolate", q, r, al)
    rel = matmul(mat_inv(q, R.ip, R.st), r, R.ip, R.st)
    want = matmul(q, se_exp(T("mul", T("fn", "selog", rel), al)), R.ip, R.st)
    for i in range(3):
        for j in range(3):
            rep.eq("interpolate", f"SE2_interpolate-{i}{j}", N, R.at2(v, i, j), want.args[i].args[j], R.where)
    # SE2Transform
    cq = ix.cls("SE2Transform").qual
    ci = ix.classes[cq]

    def loc(m):
        f = ix.find_method(cq, m)
        return f"{ci.mod.path}:{f[1].lineno if f else ci.node.lineno} {cq}.{m}"

    def made(how, *args):
        R.fresh()
        R.where = loc(how)
        if how == "__init__":
            o = R.ip.instantiate(cq, args, (), R.st, None)
        else:
            o = R.ip.call(R.ip.getattr(T("cls", cq), how, R.st), args, (), R.st, None)
        return o

    def same(name, o, x, y, th):
        rep.ob("transform", f"{name}-type", R.ip.clsof(o) == cq, f"makes a {R.ip.clsof(o)}", R.where)
        pp = R.ip.getattr(o, "p", R.st)
        rep.eq("transform", f"{name}-x", N, R.at(pp, 0), x, R.where)
        rep.eq("transform", f"{name}-y", N, R.at(pp, 1), y, R.where)
        rep.eq("transform", f"{name}-theta", N, R.ip.freeze(R.ip.getattr(o, "theta", R.st), R.st), th, R.where)
        m = R.ip.call(R.ip.getattr(o, "as_SE2", R.st), (), (), R.st, None)
        W = se2mat(T("fn", "SE2", x, y, th))
        for i in range(3):
            for j in range(3):
                rep.eq("transform", f"{name}-as_SE2-{i}{j}", N, R.at2(m, i, j), W.args[i].args[j], loc("as_SE2"))
        R.done(name)
    a, b, t = var("a"), var("b"), var("t")
    same("init", made("__init__", T("list", a, b), t), a, b, t)
    same("identity", made("identity"), ZERO, ZERO, ZERO)
    same("from_SE2", made("from_SE2", q), *q.args[1:])
    s = var("ps")
    R.fresh()
    fi = ix.find_method(cq, "from_PoseState")
    same("from_PoseState", made("from_PoseState", s), *[T("attr", s, k) for k in ("x", "y", "psi")])
    # moving a trajectory moves the pose of each of its states
    tq = ix.cls("Trajectory").qual
    fm = ix.find_method(tq, "apply_SE2transform")
    got = {}

    def values(ip, st, args, kwargs, node):
        kw = dict(kwargs)
        f = kw.get("f", args[1] if len(args) > 1 else None)
        s1 = st.fork()
        x = var("s")
        ip.types[x] = Ty(ix.cls("VehicleState").qual)
        ip.exact.add(x)
        y = ip.call(f, (x,), (), s1, node)
        got["x"], got["y"] = x, {k[0]: ip.freeze(ip.getattr(y, k[0], s1), s1) for k in ix.dc_fields(ix.cls("VehicleState").qual) if k[0] != "idx"}
        got["cls"] = ip.clsof(y)
        got["n"] = got.get("n", 0) + 1
        return var("moved")
    R.ip, R.st = Interp(ix, overrides={"DgSampledSequence.transform_values": values}), State()
    R.where = f"{fm[0].mod.path}:{fm[1].lineno} {fm[0].qual}.apply_SE2transform"
    tr, tf = var("traj"), var("transform")
    R.ip.types[tr], R.ip.types[tf] = Ty(tq), Ty(cq)
    R.ip.exact |= {tr, tf}
    R.ip.call(T("bound", tr, fm[0].qual + ".apply_SE2transform"), (tf,), (), R.st, None)
    rep.ob("trajectory", "apply_SE2transform-once", got.get("n") == 1, "the states are not transformed exactly once", R.where)
    if got:
        x, t = got["x"], T("attr", tf, "theta")
        px = [T("attr", x, k) for k in ("x", "y", "psi")]
        off = [T("item", T("attr", tf, "p"), const(i)) for i in (0, 1)]
        c, s = T("fn", "cos", t), T("fn", "sin", t)
        want = {k: T("attr", x, k) for k in got["y"]}
        want["x"] = T("add", T("sub", T("mul", c, px[0]), T("mul", s, px[1])), off[0])
        want["y"] = T("add", T("add", T("mul", s, px[0]), T("mul", c, px[1])), off[1])
        for k, v in got["y"].items():
            if k == "psi":
                # the heading up to full turns
                for tn in ("cos", "sin"):
                    w = v
                    if v.op == "fn" and v.args[0] in ("arctan2", "atan2"):
                        g = v.args[2] if tn == "cos" else v.args[1]
                    else:
                        g = T("fn", tn, v)
                    rep.eq("trajectory", f"apply_SE2transform-psi-{tn}", N, g, T("fn", tn, T("add", t, px[2])), R.where)
            else:
                rep.eq("trajectory", f"apply_SE2transform-{k}", N, v, want[k], R.where)
        rep.ob("trajectory", "apply_SE2transform-type", got["cls"] == ix.cls("VehicleState").qual, f"makes a {got['cls']}", R.where)
    R.done("apply_SE2transform")
    # the pose of a state
    for f in ("psi",):
        vs = ix.cls("VehicleState").qual
        x = var("s")
        R.fresh()
        R.ip.types[x] = Ty(vs)
        fi = ix.func("extract_pose_from_state")
        R.where = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
        v = R.ip.call(T("func", fi.qual), (x,), (), R.st, None)
        W = se2mat(T("fn", "SE2", *[T("attr", x, k) for k in ("x", "y", "psi")]))
        for i in range(3):
            for j in range(3):
                rep.eq("extract", f"extract_pose_from_state-{i}{j}", N, R.at2(v, i, j), W.args[i].args[j], R.where)
        R.done("extract_pose_from_state")


def root(t):
    while isinstance(t, T) and t.op in ("attr", "item"):
        t = t.args[0]
    return t
