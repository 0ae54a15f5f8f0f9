"""Symbolic contact geometry for an arbitrary chord of two intersection points and arbitrary centroids, compared as exact algebra."""
from ..absint import Interp, State
from ..collx import dot, vsub
from ..norm import Norm
from ..terms import *

ASSUMES = ["shapely computes intersections and centroids correctly", "the two intersection points, and the centroids of nested shapes, differ"]


def check(rep):
    ix = rep.ix
    rep.rule("unit", "the normal has length one")
    rep.rule("direction", "the normal is perpendicular to the chord of the intersection, or for a contained shape parallel to the line between the centroids")
    rep.rule("outward", "the normal never points from the contact back towards the centroid of the first body")
    rep.rule("point", "the contact point is the middle of the chord, or the centroid of a contained shape")
    rep.rule("touching", "shapes that only touch have no contact geometry")
    rep.rule("two-points", "a chord is only made of exactly two points that lie in neither shape's interior")
    x1, y1, x2, y2 = (var(k) for k in ("x1", "y1", "x2", "y2"))
    ca, cb = [var("ax"), var("ay")], [var("bx"), var("by")]
    A, B = var("a"), var("b")

    def pts(ip, st, args, kw, node):
        f = [ip.freeze(x, st) for x in args] + [ip.freeze(x, st) for _, x in kw]
        ip.effect("call", st, node, name="_find_intersection_points", args=args, kwargs=kw)
        asked.append(f)
        return ip.mk_list([T("tuple", x1, y1), T("tuple", x2, y2)], st)
    asked = []
    ip = Interp(ix, overrides={"_find_intersection_points": pts})
    st = State()
    for s, c in ((A, ca), (B, cb)):
        cen = T("attr", s, "centroid")
        st.heap[(cen, "coords")] = T("tuple", T("tuple", *c))
        st.heap[(cen, "x")], st.heap[(cen, "y")] = c
        st.heap[(cen, "xy")] = T("tuple", T("tuple", c[0]), T("tuple", c[1]))
    fi = ix.func("compute_impact_geometry")
    res = ip.run(fi, st=st)
    rep.saw(res)
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    ok = res.state.pc
    val = res.frozen()
    n = [ip.freeze(ip.getitem(ip.getitem(val, ZERO, st), const(i), st), st) for i in (0, 1)]
    P = ip.freeze(ip.getitem(val, ONE, st), st)
    touch, cont = [T("mcall", A, k, (B,), ()) for k in ("touches", "contains")]
    rep.count("intersections", len(asked), 1)
    rep.ob("point", "shapes", all(set(f) == {A, B} for f in asked), f"the intersection of {[show(x) for x in asked[0]]} is used", w)
    mids = {T("div", T("add", a, b), const(2)) for a, b in ((x1, x2), (y1, y2))}

    def pt(x):
        """coordinates of the contact point"""
        if x.op in ("item", "attr"):
            base, path = x, []
            while base.op in ("item", "attr"):
                path.append(base.args[1])
                base = base.args[0]
            if is_mid(base):
                path.reverse()
                k = {("coords", ZERO, ZERO): 0, ("coords", ZERO, ONE): 1, ("x",): 0, ("y",): 1, ("xy", ZERO, ZERO): 0, ("xy", ONE, ZERO): 1}.get(tuple(path))
                if k is not None:
                    return (mx, my)[k]
            fl = point_at(base)
            if fl is not None:
                path.reverse()
                k = {("coords", ZERO, ZERO): 0, ("coords", ZERO, ONE): 1, ("x",): 0, ("y",): 1, ("xy", ZERO, ZERO): 0, ("xy", ONE, ZERO): 1}.get(tuple(path))
                if k is not None:
                    return fl[k]
        return x

    def point_at(p):
        """coordinates of a point built from two numbers"""
        if p.op == "call" and str(p.args[0]).endswith("Point"):
            fl = [x for y in p.args[1] for x in (y.args if y.op in ("tuple", "list", "arr") else (y,))]
            return fl if len(fl) == 2 else None
        return None

    def is_mid(b):
        if b.op == "mcall" and b.args[1] == "interpolate":
            kw = dict(b.args[3])
            d = b.args[2][0] if b.args[2] else kw.get("distance")
            nz = b.args[2][1] if len(b.args[2]) > 1 else kw.get("normalized", FALSE)
            return chord(b.args[0]) and isconst(d, 0.5) and nz is TRUE
        if b.op == "attr" and b.args[1] == "centroid":
            return chord(b.args[0])
        return False

    def chord(l):
        if not (l.op == "call" and str(l.args[0]).endswith("LineString")):
            return False
        a = l.args[1][0] if l.args[1] else dict(l.args[2]).get("coordinates")
        p, q = T("tuple", x1, y1), T("tuple", x2, y2)
        return a is not None and a.op in ("list", "tuple") and set(a.args) == {p, q} and len(a.args) == 2
    mx, my = T("div", T("add", x1, x2), const(2)), T("div", T("add", y1, y2), const(2))
    rw = lambda t: rebuild(t, pt)
    n = [rw(x) for x in n]
    lt = lambda a, b: T("cmp", "lt", a, b)
    differ = lt(ZERO, T("add", T("pow", T("sub", x2, x1), const(2)), T("pow", T("sub", y2, y1), const(2))))
    apart = lt(ZERO, T("add", T("pow", T("sub", cb[0], ca[0]), const(2)), T("pow", T("sub", cb[1], ca[1]), const(2))))
    N = Norm(assume=[ok, differ, apart])
    rep.eq("unit", "length", N, dot(n, n), ONE, w, ok)
    rep.eq("direction", "chord", N, dot(n, [T("sub", x2, x1), T("sub", y2, y1)]), ZERO, w, land(ok, lnot(cont)))
    bc = vsub(cb, ca)
    rep.eq("direction", "contained", N, T("sub", T("mul", n[0], bc[1]), T("mul", n[1], bc[0])), ZERO, w, land(ok, cont))
    out = lambda p: lnot(lt(dot(vsub(p, ca), n), ZERO))
    rep.holds("outward", "chord", N, out([mx, my]), w, land(ok, lnot(cont)), "the normal points away from the first body")
    rep.holds("outward", "contained", N, out(cb), w, land(ok, cont), "the normal points away from the first body")
    for cond, p in leaves(P):
        # which point is returned in this case
        if p is T("attr", B, "centroid"):
            rep.holds("point", "contained", N, cont, w, land(ok, cond), "the centroid of the other shape is only used if it is contained")
        else:
            good = is_mid(p)
            fl = point_at(p)
            if fl is not None:
                good = N.diff(T("tuple", *fl), T("tuple", mx, my)) is None
            rep.ob("point", "chord", good, f"the contact point is {show(p)[:200]}", w)
            rep.holds("point", "chord-when", N, lnot(cont), w, land(ok, cond), "the chord is only used if the other shape is not contained")
    rep.equiv("touching", "rejected", Norm(), lnot(ok), touch, w)
    # the chord is made of two points
    fi = ix.func("_find_intersection_points")
    ip2 = Interp(ix)
    res = ip2.run(fi)
    rep.saw(res)
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    v = res.frozen()
    pc = res.state.pc
    N2 = Norm()
    nret = 0
    for cond, p in leaves(v):
        g = land(pc, cond)
        if N2.fails(lnot(g)) is None:
            continue
        nret += 1
        rep.holds("two-points", f"exactly-two-{nret}", N2, T("cmp", "eq", T("fn", "len", p), const(2)), w, g, "exactly two points are returned")
    rep.count("point lists", nret, 1)
    rep.notes += ip.notes


def leaves(t, cond=TRUE):
    if t.op == "ite":
        yield from leaves(t.args[1], land(cond, t.args[0]))
        yield from leaves(t.args[2], land(cond, lnot(t.args[0])))
    else:
        yield cond, t
