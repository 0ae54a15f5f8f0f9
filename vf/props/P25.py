"""Symbolic evaluation of the lane pose: case analysis of its classification over all positions, and its measures compared with the specification."""
from ..absint import Interp, State
from ..norm import Norm
from ..simx import rec_field
from ..terms import *

S, LAT, HEAD = var("along"), var("lateral_position"), var("heading")
R, LEN = var("half width"), var("length")


def one_of(*cs):
    """exactly one of the conditions holds."""
    out = FALSE
    for i in range(len(cs)):
        out = lor(out, land(*[c if j == i else lnot(c) for j, c in enumerate(cs)]))
    return out


def check(rep):
    ix = rep.ix
    rep.rule("lateral", "exactly one of laterally inside, outside left and outside right holds, by the signed lateral position and the half width there")
    rep.rule("along", "exactly one of inside, before and after holds, by the position along the lane and its length")
    rep.rule("inside", "inside means inside both ways")
    rep.rule("distances", "the distances are the absolute lateral differences to the boundaries and the centre")
    rep.rule("direction", "the direction is correct exactly if the relative heading is at most a right angle either way")
    rep.rule("carried", "the measures the pose was made from are reported unchanged")
    rep.rule("projection", "a pose is measured at its closest centre point, in that point's frame")
    fi = ix.method("DgLanelet", "lane_pose")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    beta, ctr = T("fn", "beta_at", S), T("fn", "centre_at", T("fn", "beta_at", S))

    def meth(name, f):
        m = ix.method("DgLanelet", name)

        def g(ip, st, args, kwargs, node):
            ps = [a.arg for a in m.node.args.args[1:]]
            d = dict(zip(ps, args[1:]))
            d.update(kwargs)
            return f(*[ip.freeze(d[p], st) for p in ps if p in d])
        return m.qual, g
    ov = dict([meth("beta_from_along_lane", lambda x: T("fn", "beta_at", x)), meth("center_point", lambda b: T("fn", "centre_at", b)),
               meth("radius", lambda b: R if b is beta else T("fn", "radius_at", b)), meth("get_lane_length", lambda: LEN)])
    ov[ix.method("DgLanelet", "get_lane_lengths").qual] = lambda ip, st, a, k, n: var("lengths")
    ip, st = Interp(ix, overrides=ov), State()
    r = ip.run(fi, dict(zip([a.arg for a in fi.node.args.args[1:]], (S, HEAD, LAT))), selfterm=None, st=st)
    # parameters by name, whatever their order
    names = [a.arg for a in fi.node.args.args[1:]]
    if set(names) == {"along_lane", "relative_heading", "lateral"}:
        ip, st = Interp(ix, overrides=ov), State()
        r = ip.run(fi, {"along_lane": S, "relative_heading": HEAD, "lateral": LAT}, selfterm=None, st=st)
    rep.saw(r)
    v = ip.freeze(r.value, r.state)
    v = subst(v, {x: LEN for x in subterms(v) if x.op in ("fn", "sum") and var("lengths") in x.args and "sum" in (x.op, x.args[0])})
    N = Norm(assume=[T("cmp", "lt", ZERO, R), T("cmp", "lt", ZERO, LEN)])
    f = lambda n: rec_field(v, n)
    if not rep.ob("carried", "lane_pose", v.op == "rec" and v.args[0] == ix.cls("DgLanePose").qual, f"returns {show(v)[:200]}", w):
        return
    lt = lambda a, b: T("cmp", "lt", a, b)
    want = {
        "outside_left": ("lateral", lt(R, LAT)), "outside_right": ("lateral", lt(LAT, T("neg", R))),
        "lateral_inside": ("lateral", land(lnot(lt(R, LAT)), lnot(lt(LAT, T("neg", R))))),
        "along_before": ("along", lt(S, ZERO)), "along_after": ("along", lt(LEN, S)),
        "along_inside": ("along", land(lnot(lt(S, ZERO)), lnot(lt(LEN, S)))),
    }
    for n, (rule, c) in want.items():
        rep.equiv(rule, n, N, f(n), c, w)
    rep.holds("lateral", "exactly one", N, one_of(f("lateral_inside"), f("outside_left"), f("outside_right")), w, what="exactly one of lateral_inside, outside_left, outside_right")
    rep.holds("along", "exactly one", N, one_of(f("along_inside"), f("along_before"), f("along_after")), w, what="exactly one of along_inside, along_before, along_after")
    rep.equiv("inside", "inside", N, f("inside"), land(f("lateral_inside"), f("along_inside")), w)
    ab = lambda t: T("fn", "abs", t)
    for n, t in (("distance_from_left", T("sub", LAT, R)), ("distance_from_right", T("add", LAT, R)), ("distance_from_center", LAT)):
        rep.eq("distances", n, N, f(n), ite(lt(t, ZERO), T("neg", t), t), w)
    for n, t in (("lateral_left", R), ("lateral_right", T("neg", R))):
        rep.eq("distances", n, N, f(n), t, w)
    half = T("div", T("fn", "pi"), const(2))
    rep.equiv("direction", "correct_direction", N, f("correct_direction"), land(lnot(lt(half, HEAD)), lnot(lt(HEAD, T("neg", half)))), w)
    for n, t in (("lateral", LAT), ("along_lane", S), ("relative_heading", HEAD)):
        rep.eq("carried", n, N, f(n), t, w)
    cp = f("center_point")
    leaves = {x for x in subterms(cp) if x.op == "fn" and x.args[0] == "centre_at"} if cp is not None else set()
    rep.ob("carried", "center_point", leaves == {ctr}, f"centre point is {show(cp)[:200] if cp is not None else None}", w)
    project(rep, ix)


def project(rep, ix):
    for meth in ("lane_pose_from_SE2_generic", "lane_pose_from_SE2Transform"):
        fi = ix.method("DgLanelet", meth)
        w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
        closest = ix.method("DgLanelet", "find_along_lane_closest_point")
        B = var("beta")
        cx, cy, cth = var("cx"), var("cy"), var("cth")
        seen = []

        def near(ip, st, args, kwargs, node):
            d = dict(zip([a.arg for a in closest.node.args.args[1:]], args[1:]))
            d.update(kwargs)
            seen.append(ip.freeze(d.get("p", NONE), st))
            return T("tuple", B, T("fn", "SE2", cx, cy, cth))
        out = []

        def made(ip, st, args, kwargs, node):
            d = dict(zip([a.arg for a in ix.method("DgLanelet", "lane_pose").node.args.args[1:]], args[1:]))
            d.update(kwargs)
            out.append((st.pc, {k: ip.freeze(v, st) for k, v in d.items()}))
            return T("fn", "pose", *[T("kw", k, ip.freeze(v, st)) for k, v in sorted(d.items())])
        ov = {closest.qual: near, ix.method("DgLanelet", "lane_pose").qual: made,
              ix.method("DgLanelet", "along_lane_from_beta").qual: lambda ip, st, a, k, n: T("fn", "along_at", ip.freeze((list(a[1:]) + [v for _, v in k])[0], st))}
        ip, st = Interp(ix, overrides=ov), State()
        p = [a.arg for a in fi.node.args.args[1:]][0]
        x, y, th = var("x"), var("y"), var("theta")
        if meth.endswith("generic"):
            q = T("fn", "SE2", x, y, th)
        else:
            c = ix.cls("DgLanelet")
            from ..types import Ty
            q = var("pose")
            ty = ip.ty.ann(fi.mod, fi.node.args.args[1].annotation)
            ip.types[q] = ty
        r = ip.run(fi, {p: q}, selfterm=None, st=st)
        rep.saw(r)
        m = {T("attr", q, "theta"): th, T("item", T("attr", q, "p"), ZERO): x, T("item", T("attr", q, "p"), ONE): y} if q.op == "var" else {}
        N = Norm()
        rep.ob("projection", f"{meth} measured", len(out) == 1 and len(seen) == 1, f"{len(out)} poses from {len(seen)} closest points", w)
        if len(out) != 1 or len(seen) != 1:
            continue
        d = {k: subst(v, m) for k, v in out[0][1].items()}
        s = subst(seen[0], m)
        rep.ob("projection", f"{meth} closest to", s.op in ("arr", "list", "tuple") and len(s.args) == 2 and all(N.diff(a, b) is None for a, b in zip(s.args, (x, y))), f"closest point to {show(s)[:200]}", w)
        rep.eq("projection", f"{meth} along", N, d.get("along_lane", NONE), T("fn", "along_at", B), w)
        dx, dy = T("sub", x, cx), T("sub", y, cy)
        cos, sin = T("fn", "cos", cth), T("fn", "sin", cth)
        rep.eq("projection", f"{meth} lateral", N, d.get("lateral", NONE), T("sub", T("mul", cos, dy), T("mul", sin, dx)), w)
        h, diff = d.get("relative_heading", NONE), T("sub", th, cth)
        if h.op == "fn" and h.args[0] == "arctan2":
            # the angle of (cos, sin) of the difference: no component across it, a unit along it
            b, a = h.args[1:]
            c2, s2 = (T("fn", k, diff) for k in ("cos", "sin"))
            rep.eq("projection", f"{meth} heading", N, T("sub", T("mul", b, c2), T("mul", a, s2)), ZERO, w)
            rep.eq("projection", f"{meth} heading sense", N, T("add", T("mul", a, c2), T("mul", b, s2)), ONE, w)
        else:
            rep.eq("projection", f"{meth} heading", Norm(angle_mod=True), h, diff, w)
