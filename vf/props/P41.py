"""Symbolic evaluation of the lane's coordinate maps on every segment and beyond both ends, for lanes with symbolic control points."""
from ..absint import Interp, State
from ..bounded import LE, LT, PI, Ranged
from ..norm import Norm
from ..simx import rec_field
from ..terms import *

SIZES = ("along", 5)

n3 = lambda t: T("neg", t)


class Lane:
    def __init__(self, rep, n, assume=(), wind=(), end=None):
        self.rep, self.ix, self.n = rep, rep.ix, n
        self.x, self.y = [var(f"x{i}") for i in range(n)], [var(f"y{i}") for i in range(n)]
        # headings: each turns by less than half a turn, written with any number of full turns
        self.turn = [var(f"turn{i}") for i in range(1, n)]
        self.h, self.th = [var("th0")], [var("th0")]
        for i, d in enumerate(self.turn):
            self.h.append(T("add", self.h[-1], d))
            k = wind[i] if i < len(wind) else 0
            self.th.append(T("add", self.h[-1], T("mul", const(2 * k), PI)) if k else self.h[-1])
        if end is not None:
            # the heading of that point written with full turns
            self.h[end] = var("heading")
            self.th[end] = T("add", self.h[end], T("mul", const(2 * wind[0]), PI)) if wind and wind[0] else self.h[end]
            assume = list(assume) + [LE(n3(PI), self.h[end]), LT(self.h[end], PI)]
        self.end = end
        self.r = [var(f"r{i}") for i in range(n)]
        self.L = [var(f"l{i}") for i in range(n - 1)]
        self.assume = [LT(ZERO, l) for l in self.L] + [LT(ZERO, r) for r in self.r] + [LT(ZERO, PI)] + [land(LE(n3(PI), d), LT(d, PI)) for d in self.turn] + list(assume)

    def ip(self, overrides=None, lengths=True):
        ix = self.ix
        ov = {}
        if lengths:
            ov[ix.method("DgLanelet", "get_lane_lengths").qual] = lambda ip, st, a, k, nd: ip.mk_list(tuple(self.L), st)
        ov.update(overrides or {})
        ip, st = Ranged(ix, self.assume, overrides=ov), State()
        if self.end is not None:
            ip.angles.append(self.h[self.end])
        pts = []
        for i in range(self.n):
            q = ip.instantiate(ix.cls("SE2Transform").qual, (T("list", self.x[i], self.y[i]), self.th[i]), (), st, None)
            pts.append(ip.instantiate(ix.cls("LaneCtrPoint").qual, (q, self.r[i]), (), st, None))
        lane = ip.instantiate(ix.cls("DgLanelet").qual, (ip.mk_list(tuple(pts), st),), (), st, None)
        self.I, self.st, self.lane = ip, st, lane
        return self

    def go(self, name, *args):
        ip = self.I
        m = ip.ix.method("DgLanelet", name)
        v = ip.call_method(self.lane, (ip.ix.cls("DgLanelet"), m.node), args, (), self.st, None)
        self.rep.funcs.add(m.qual)
        return v

    def where(self, name):
        m = self.ix.method("DgLanelet", name)
        return f"{m.mod.path}:{m.node.lineno} {m.qual}"

    def entries(self, v):
        """x, y, cos, sin of a pose given as a matrix or pose term"""
        from ..calls import se2mat
        v = self.I.freeze(v, self.st)
        m = se2mat(v) if v.op == "fn" and v.args[0] == "SE2" else v
        if m.op != "arr" or len(m.args) != 3 or any(r.op != "arr" or len(r.args) != 3 for r in m.args):
            return None
        a = m.args
        return [straight(self.I.N, z) for z in (a[0].args[2], a[1].args[2], a[0].args[0], a[1].args[0])]


def straight(N, t):
    """powers of a pure translation are multiples of it"""
    m = {}
    for z in subterms(t):
        if z.op == "fn" and z.args[0] == "sepow":
            _, X, k, i, j = z.args
            if X.op == "arr" and len(X.args) == 3 and all(r.op == "arr" and len(r.args) == 3 for r in X.args):
                e = lambda a, b: X.args[a].args[b]
                if N.diff(e(0, 0), ONE) is None and N.diff(e(1, 0), ZERO) is None and N.diff(e(0, 1), ZERO) is None and N.diff(e(1, 1), ONE) is None:
                    a, b = i.args[0], j.args[0]
                    m[z] = (ONE if a == b else ZERO) if b < 2 else T("mul", k, e(a, 2))
    return subst(t, m) if m else t


def segments(n):
    """(name, segment or None, beta, assumptions, metres beyond the end)"""
    rho, d = var("rho"), var("beyond")
    out = [("before", None, n3(d), [LT(ZERO, d)]), ("after", None, T("add", const(n - 1), d), [LE(ZERO, d)])]
    for i in range(n - 1):
        out.append((f"segment {i}", i, T("add", const(i), rho) if i else rho, [LE(ZERO, rho), LT(rho, ONE)]))
    return out


def check(rep):
    ix = rep.ix
    rep.rule("along", "progress along the lane is the length of the segments behind plus the covered share of the current one, in metres also beyond the ends")
    rep.rule("inverse", "progress in metres and in control points convert into each other without loss")
    rep.rule("centre", "the centre point moves from one control point to the next, and straight ahead by one metre per unit beyond the ends")
    rep.rule("fast", "the fast centre point interpolates position and heading linearly, turning along the shorter arc")
    rep.rule("radius", "the half width is interpolated between control points and constant beyond the ends")
    rep.rule("lengths", "segment lengths are the distances between consecutive control points, the lane length their sum")
    rep.rule("profile", "the outline consists of the points one half width to the left and right of the centre points")
    rep.rule("closest", "the closest point minimises the distance to the centre point, and is reported with its own parameter")
    rep.rule("inside", "a position is inside exactly if its closest centre point lies within the lane and no farther than the half width there")
    rep.rule("vertices", "control points made from vertices head along the lane with the left boundary to the left, at half the width")
    sizes = (2, 4) if rep.tier == "quick" else (2, 3, 4, 6)
    for n in sizes:
        coords(rep, n)
        profile(rep, n)
    profile(rep, 12)
    closest(rep)
    vertices(rep)


def coords(rep, n):
    rho, d = var("rho"), var("beyond")
    for name, i, beta, assume in segments(n):
        tag = f"{n} points, {name}"
        lane = Lane(rep, n, assume).ip()
        N = lane.I.N
        S = lane.L[0]
        for l in lane.L[1:]:
            S = T("add", S, l)
        back = ZERO
        for l in lane.L[:i or 0]:
            back = T("add", back, l)
        along = n3(d) if name == "before" else T("add", S, d) if name == "after" else T("add", back, T("mul", lane.L[i], rho))
        w = lane.where("along_lane_from_beta")
        rep.eq("along", f"along_lane_from_beta {tag}", N, lane.I.freeze(lane.go("along_lane_from_beta", beta), lane.st), along, w)
        # radius
        w = lane.where("radius")
        want = lane.r[0] if name == "before" else lane.r[-1] if name == "after" else T("add", lane.r[i], T("mul", rho, T("sub", lane.r[i + 1], lane.r[i])))
        rep.eq("radius", f"radius {tag}", N, lane.I.freeze(lane.go("radius", beta), lane.st), want, w)
        # back again: the position d metres into the segment
        e, rest = var("into"), var("rest")
        if i is None:
            pos, b = along, beta
            l2 = Lane(rep, n, assume).ip()
        else:
            l2 = Lane(rep, n, [LE(ZERO, e), LT(ZERO, rest)])
            l2.L[i] = T("add", e, rest)
            l2.assume[i] = LT(ZERO, l2.L[i])
            l2.ip()
            bk = ZERO
            for l in l2.L[:i]:
                bk = T("add", bk, l)
            pos, b = T("add", bk, e) if i else e, T("add", const(i), T("div", e, l2.L[i]))
        w = lane.where("beta_from_along_lane")
        rep.eq("inverse", f"beta_from_along_lane {tag}", l2.I.N, l2.I.freeze(l2.go("beta_from_along_lane", pos), l2.st), b, w)
        # poses
        w = lane.where("center_point")
        l3 = Lane(rep, n, assume).ip()
        got = l3.entries(l3.go("center_point", beta))
        if rep.ob("centre", f"center_point {tag} is a pose", got is not None, "not a pose", w):
            cos = lambda t: T("fn", "cos", t)
            sin = lambda t: T("fn", "sin", t)
            if i is None:
                k = 0 if name == "before" else n - 1
                m = n3(d) if name == "before" else d
                th = l3.th[k]
                want = [T("add", l3.x[k], T("mul", m, cos(th))), T("add", l3.y[k], T("mul", m, sin(th))), cos(th), sin(th)]
            else:
                q = [T("fn", "SE2", l3.x[k], l3.y[k], l3.th[k]) for k in (i, i + 1)]
                f = rep.ix.func("SE2_interpolate")
                want = l3.entries(l3.I.call(T("func", f.qual), (q[0], q[1], rho), (), l3.st, None))
            for c, a, b in zip(("x", "y", "cos", "sin"), got, want):
                rep.eq("centre", f"center_point {tag} {c}", l3.I.N, a, b, w)
        # the fast variant, with headings written with extra full turns
        w = lane.where("center_point_fast_SE2Transform")
        for k in (-1, 0, 1):
            wind = [0] * (n - 1)
            if i is not None:
                for j in range(i, n - 1):
                    wind[j] = k
            l4 = Lane(rep, n, assume, wind).ip() if i is not None else Lane(rep, n, assume, [k], 0 if name == "before" else n - 1).ip()
            v = l4.go("center_point_fast_SE2Transform", beta)
            fz = l4.I.freeze(v, l4.st)
            p, th = (l4.I.freeze(l4.I.getattr(v, a, l4.st), l4.st) for a in ("p", "theta"))
            got = [straight(l4.I.N, l4.I.freeze(l4.I.getitem(p, const(c), l4.st), l4.st)) for c in (0, 1)] + [straight(l4.I.N, th)]
            if i is None:
                e = 0 if name == "before" else n - 1
                m = n3(d) if name == "before" else d
                want = [T("add", l4.x[e], T("mul", m, T("fn", "cos", l4.th[e]))), T("add", l4.y[e], T("mul", m, T("fn", "sin", l4.th[e]))), l4.h[e]]
            else:
                mix = lambda s: T("add", s[i], T("mul", rho, T("sub", s[i + 1], s[i])))
                want = [mix(l4.x), mix(l4.y), mix(l4.h)]
            for c, a, b in zip("xy", got, want):
                rep.eq("fast", f"center_point_fast {tag} {c} {k}", l4.I.N, a, b, w)
            a, b = got[2], want[2]
            for c in ("cos", "sin"):
                rep.eq("fast", f"center_point_fast {tag} heading {c} {k}", l4.I.N, T("fn", c, a), T("fn", c, b), w)


def pose_at(b):
    return T("fn", "SE2", T("fn", "cx", b), T("fn", "cy", b), T("fn", "cth", b))


def by_name(ix, meth, f):
    """override of a method of the lane: f(interpreter, state, argument by name)"""
    m = ix.method("DgLanelet", meth)
    ps = [a.arg for a in m.node.args.args[1:]]

    def g(ip, st, args, kwargs, node):
        d = dict(zip(ps, args[1:]))
        d.update(kwargs)
        return f(ip, st, d)
    return m.qual, g


def at(t, i):
    return t.args[i] if t.op in ("arr", "list", "tuple") and len(t.args) > i else T("item", t, const(i))


def profile(rep, n):
    ix = rep.ix
    B = [var("b0"), var("b1"), var("b2")]
    seen = []

    def spaced(ip, st, args, kwargs, node):
        d = dict(zip(("start", "stop", "num"), args))
        d.update(kwargs)
        seen.append({k: ip.freeze(v, st) for k, v in d.items()})
        return T("arr", *B)
    ov = dict([by_name(ix, "center_point", lambda ip, st, d: pose_at(ip.freeze(d["beta"], st))),
               by_name(ix, "radius", lambda ip, st, d: T("fn", "rad", ip.freeze(d["beta"], st)))])
    ov["numpy.linspace"] = spaced
    lane = Lane(rep, n).ip(ov)
    w = lane.where("lane_profile")
    v = lane.go("lane_profile")
    v = lane.I.freeze(v, lane.st)
    N = lane.I.N
    if rep.ob("profile", f"range {n}", len(seen) == 1 and not [k for k in seen[0] if k not in ("start", "stop", "num")], f"the centre line is sampled {len(seen)} times", w):
        rep.eq("profile", f"start {n}", N, seen[0]["start"], ZERO, w)
        rep.eq("profile", f"stop {n}", N, seen[0]["stop"], const(n - 1), w)
        num = seen[0].get("num", const(50))
        rep.ob("profile", f"enough {n}", num.op == "const" and num.args[0] >= n, f"{show(num)} samples for {n} control points", w)
    side = lambda b, s: (T("sub", T("fn", "cx", b), T("mul", s, T("mul", T("fn", "sin", T("fn", "cth", b)), T("fn", "rad", b)))),
                         T("add", T("fn", "cy", b), T("mul", s, T("mul", T("fn", "cos", T("fn", "cth", b)), T("fn", "rad", b)))))
    left, right = [side(b, ONE) for b in B], [side(b, const(-1)) for b in B]
    if not rep.ob("profile", f"points {n}", v.op in ("list", "tuple", "arr") and len(v.args) == 6, f"outline is {show(v)[:300]}", w):
        return
    best = None
    for want in (right + left[::-1], left + right[::-1], right[::-1] + left, left[::-1] + right):
        bad = [(k, c) for k in range(6) for c in (0, 1) if N.diff(at(v.args[k], c), want[k][c]) is not None]
        if best is None or len(bad) < len(best):
            best = bad
    rep.ob("profile", f"outline {n}", not best, f"points {sorted({k for k, _ in best})} are not one half width beside the centre line, in order along one side and back along the other", w)


def closest(rep):
    ix = rep.ix
    n = 3
    px, py, B = var("px"), var("py"), var("b")
    for name, centre in (("find_along_lane_closest_point", "center_point"), ("find_along_lane_closest_point_fast", "center_point_fast_SE2Transform")):
        seen = []

        def minimise(ip, st, args, kwargs, node):
            f = args[0] if args else dict(kwargs).get("fun", NONE)
            seen.append(ip.freeze(ip.call(f, (B,), (), st, node), st))
            return T("fn", "minimum", const(len(seen)))

        def fast(ip, st, d):
            b = ip.freeze(d["beta"], st)
            return ip.instantiate(ix.cls("SE2Transform").qual, (T("arr", T("fn", "cx", b), T("fn", "cy", b)), T("fn", "cth", b)), (), st, None)
        ov = dict([by_name(ix, "center_point", lambda ip, st, d: pose_at(ip.freeze(d["beta"], st))), by_name(ix, "center_point_fast_SE2Transform", fast)])
        ov["scipy.optimize.minimize_scalar"] = minimise
        lane = Lane(rep, n).ip(ov)
        w = lane.where(name)
        v = lane.I.freeze(lane.go(name, T("arr", px, py)), lane.st)
        if not rep.ob("closest", f"{name} minimises", len(seen) == 1 and v.op == "tuple" and len(v.args) == 2, f"returns {show(v)[:200]} after {len(seen)} minimisations", w):
            continue
        N = lane.I.N
        sq = lambda t: T("mul", t, t)
        d2 = T("add", sq(T("sub", px, T("fn", "cx", B))), sq(T("sub", py, T("fn", "cy", B))))
        ok = N.diff(seen[0], d2) is None or N.diff(sq(seen[0]), d2) is None and N.fails(LE(ZERO, seen[0])) is None
        rep.ob("closest", f"{name} objective", ok, f"minimises {show(seen[0])[:200]}", w)
        x = T("attr", T("fn", "minimum", ONE), "x")
        rep.eq("closest", f"{name} parameter", N, v.args[0], x, w)
        got = lane.entries(v.args[1])
        want = lane.entries(pose_at(x))
        if rep.ob("closest", f"{name} pose", got is not None, f"pose is {show(v.args[1])[:200]}", w):
            for c, a, b in zip(("x", "y", "cos", "sin"), got, want):
                rep.eq("closest", f"{name} {c}", N, a, b, w)
    # progress of a position
    S = var("start")
    for fast in (TRUE, FALSE):
        ov = dict([by_name(ix, f, lambda ip, st, d, f=f: T("tuple", T("fn", f, ip.freeze(d["p"], st)), var("pose"))) for f in ("find_along_lane_closest_point", "find_along_lane_closest_point_fast")]
                  + [by_name(ix, "along_lane_from_beta", lambda ip, st, d: T("fn", "along_at", ip.freeze(d["beta"], st)))])
        lane = Lane(rep, n).ip(ov)
        p = var("p")
        m = ix.method("DgLanelet", "along_lane_from_T2value")
        v = lane.I.freeze(lane.I.call_method(lane.lane, (ix.cls("DgLanelet"), m.node), (p,), (("fast", fast),), lane.st, None), lane.st)
        ok = v in [T("fn", "along_at", T("fn", f, p)) for f in ("find_along_lane_closest_point", "find_along_lane_closest_point_fast")]
        rep.ob("closest", f"along_lane_from_T2value {show(fast)}", ok, f"gives {show(v)[:200]}", lane.where("along_lane_from_T2value"))
    # inside
    b, rad, cx, cy = var("beta"), var("rad"), var("cx"), var("cy")

    def fastc(ip, st, d):
        return ip.instantiate(ix.cls("SE2Transform").qual, (T("arr", cx, cy), var("cth")), (), st, None)
    ov = dict([by_name(ix, f, lambda ip, st, d, f=f: T("tuple", b, T("fn", "SE2", cx, cy, var("cth")))) for f in ("find_along_lane_closest_point", "find_along_lane_closest_point_fast")]
              + [by_name(ix, "radius", lambda ip, st, d: rad if d["beta"] is b else T("fn", "rad", ip.freeze(d["beta"], st))), by_name(ix, "center_point_fast_SE2Transform", fastc),
                 by_name(ix, "center_point", lambda ip, st, d: T("fn", "SE2", cx, cy, var("cth")))])
    lane = Lane(rep, n, [LT(ZERO, rad)]).ip(ov)
    v = lane.I.freeze(lane.go("is_inside_from_T2value", T("arr", px, py)), lane.st)
    sq = lambda t: T("mul", t, t)
    d2 = T("add", sq(T("sub", px, cx)), sq(T("sub", py, cy)))
    dist = T("fn", "sqrt", d2)
    rep.equiv("inside", "is_inside_from_T2value", lane.I.N, v, land(LE(dist, rad), LE(ZERO, b), LE(b, const(n - 1))), lane.where("is_inside_from_T2value"))
    # lengths
    for k in (2, 4):
        lane = Lane(rep, k).ip(lengths=False)
        v = lane.I.freeze(lane.go("get_lane_lengths"), lane.st)
        w = lane.where("get_lane_lengths")
        if rep.ob("lengths", f"count {k}", v.op in ("list", "tuple", "arr") and len(v.args) == k - 1, f"lengths are {show(v)[:200]}", w):
            f = ix.func("get_distance_SE2")
            for i in range(k - 1):
                q = [T("fn", "SE2", lane.x[j], lane.y[j], lane.th[j]) for j in (i, i + 1)]
                d = [lane.I.freeze(lane.I.call(T("func", f.qual), tuple(x), (), lane.st, None), lane.st) for x in (q, q[::-1])]
                rep.ob("lengths", f"segment {i} of {k}", any(lane.I.N.diff(v.args[i], x) is None for x in d), f"length {i} is {show(v.args[i])[:200]}", w)
        lane = Lane(rep, k).ip()
        S = lane.L[0]
        for l in lane.L[1:]:
            S = T("add", S, l)
        rep.eq("lengths", f"total {k}", lane.I.N, lane.I.freeze(lane.go("get_lane_length"), lane.st), S, lane.where("get_lane_length"))


def vertices(rep):
    ix = rep.ix
    m = ix.method("DgLanelet", "from_vertices")
    w = f"{m.mod.path}:{m.node.lineno} {m.qual}"
    ip, st = Interp(ix), State()
    k = 2
    P = lambda c: ip.mk_list(tuple(T("arr", var(f"{c}x{i}"), var(f"{c}y{i}")) for i in range(k)), st)
    v = ip.call_method(T("cls", ix.cls("DgLanelet").qual), (ix.cls("DgLanelet"), m.node), (), (("left_vertices", P("l")), ("right_vertices", P("r")), ("center_vertices", P("c"))), st, None)
    rep.funcs.add(m.qual)
    cps = ip.freeze(ip.getattr(v, "control_points", st), st)
    if not rep.ob("vertices", "one control point per vertex", cps.op in ("list", "tuple") and len(cps.args) == k, f"control points {show(cps)[:200]}", w):
        return
    N = Norm(assume=[LT(ZERO, PI)])
    for i, c in enumerate(cps.args):
        q, r = rec_field(c, "q"), rec_field(c, "r")
        p, th = rec_field(q, "p"), rec_field(q, "theta")
        for j, a in enumerate("xy"):
            rep.eq("vertices", f"position {i} {a}", N, at(p, j), var(f"c{a}{i}"), w)
        sq = lambda t: T("mul", t, t)
        dx, dy = T("sub", var(f"rx{i}"), var(f"lx{i}")), T("sub", var(f"ry{i}"), var(f"ly{i}"))
        width2 = T("add", sq(dx), sq(dy))
        rep.eq("vertices", f"half width {i}", N, T("mul", const(4), sq(r)), width2, w)
        rep.holds("vertices", f"half width {i} not negative", N, LE(ZERO, r), w, what="the half width is not negative")
        # heading: perpendicular to the line from left to right, with the left boundary to the left
        s, co = (th.args[1:] if th.op == "fn" and th.args[0] in ("arctan2", "atan2") else (T("fn", "sin", th), T("fn", "cos", th)))
        rep.eq("vertices", f"heading {i}", N, T("add", T("mul", co, dx), T("mul", s, dy)), ZERO, w)
        rep.holds("vertices", f"left is left {i}", N, LT(ZERO, T("sub", T("mul", s, dx), T("mul", co, dy))), w, LT(ZERO, width2), "the left boundary is to the left of the heading")
