"""Value flow of the construction of road boundaries, for lanelets with symbolic vertices and any connection."""
from ..absint import Interp, State
from ..norm import Norm
from ..terms import *

BUF = var("buffer")


def names(k, *more):
    return frozenset(f"shapely.{m}{c}" for c in (k, *more, "BaseGeometry") for m in ("", "geometry.", f"geometry.{c.lower()}.", "geometry.base."))


def check(rep):
    ix = rep.ix
    rep.rule("road", "the road is the union of all lanelets, widened by the buffer")
    rep.rule("gates", "there is a gate across the end of every lanelet without successor, and across the start of every lanelet without predecessor, and nowhere else")
    rep.rule("bounds", "the boundaries are all inner outlines of the road, and its outer outlines except at the gates")
    rep.rule("obstacles", "a scenario that uses road boundaries has exactly these as additional static obstacles, built from itself with its own buffer")
    for multi in (False, True):
        for whole in (False, True):
            build(rep, multi, whole)
    scenario(rep)


def build(rep, multi, whole):
    """multi: the road consists of two separate areas; whole: the outline stays one line when the gates are cut out"""
    ix = rep.ix
    fi = ix.func("build_road_boundary_obstacle")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    tag = f"{'two areas' if multi else 'one area'}, {'one line' if whole else 'several lines'}"
    st = State()
    unions, buffered, cuts, lines = [], {}, {}, {}
    areas = []

    def shape(k, name, **a):
        v = var(name)
        ip.ext_types[v] = names(k, *(["LineString"] if k == "LinearRing" else []))
        for n, x in a.items():
            st.heap[(v, n)] = x
        return v

    def buf(ip, st, args, kwargs, node):
        o, d = args[0], args[1] if len(args) > 1 else dict(kwargs).get("distance", NONE)
        v = var(f"buffered{len(buffered)}")
        ip.ext_types[v] = names("Polygon")
        buffered[v] = (o, ip.freeze(d, st))
        return v

    def line(ip, st, args, kwargs, node):
        v = var(f"line{len(lines)}")
        ip.ext_types[v] = names("LineString")
        lines[v] = ip.freeze(args[0] if args else dict(kwargs)["coordinates"], st)
        return v

    def union(ip, st, args, kwargs, node):
        unions.append(ip.freeze(args[0], st))
        return road

    def cut(ip, st, args, kwargs, node):
        o = args[0]
        v = var(f"cut{len(cuts)}")
        cuts[v] = (o, args[1])
        # after the last cut the outline is one line or several
        if whole:
            ip.ext_types[v] = names("LineString")
        else:
            ip.ext_types[v] = names("MultiLineString")
            st.heap[(v, "geoms")] = T("tuple", T("fn", "part", v, ZERO), T("fn", "part", v, ONE))
        return v
    ip = Interp(ix, overrides={".buffer": buf, "shapely.geometry.LineString": line, "shapely.LineString": line, "shapely.ops.unary_union": union, "shapely.unary_union": union, ".difference": cut})

    def mpoly(ip, st, args, kwargs, node):
        ps = ip.freeze(args[0], st)
        return shape("MultiPolygon", f"multi{len(areas)}", geoms=T("tuple", *ps.args))
    for q in ("shapely.MultiPolygon", "shapely.geometry.MultiPolygon"):
        ip.overrides[q] = mpoly
    for i in range(2 if multi else 1):
        e = shape("LinearRing", f"exterior{i}")
        inner = [shape("LinearRing", f"interior{i}{j}") for j in range(2)]
        areas.append((shape("Polygon", f"area{i}", exterior=e, interiors=T("tuple", *inner)), e, inner))
    road = shape("MultiPolygon", "road", geoms=T("tuple", *[a for a, _, _ in areas])) if multi else areas[0][0]
    scenario = var("scenario")
    # one lanelet of each connection
    lanelets, want = [], []
    for i, (succ, pred) in enumerate(((0, 0), (0, 1), (1, 0), (2, 3))):
        l = var(f"lanelet{i}")
        L, R = ([var(f"{s}{i}{j}") for j in range(3)] for s in ("left", "right"))
        st.heap[(l, "left_vertices")], st.heap[(l, "right_vertices")] = T("list", *L), T("list", *R)
        st.heap[(l, "successor")], st.heap[(l, "predecessor")] = T("list", *map(const, range(succ))), T("list", *map(const, range(pred)))
        lanelets.append(l)
        if not succ:
            want.append({L[-1], R[-1]})
        if not pred:
            want.append({L[0], R[0]})
    st.heap[(T("attr", scenario, "lanelet_network"), "lanelets")] = T("list", *lanelets)
    r = ip.run(fi, {"scenario": scenario, "buffer": BUF}, st=st)
    rep.funcs |= ip.visited
    v = ip.freeze(r.value, r.state or st) if r.value is not None else NONE
    rep.ob("bounds", f"{tag}: completes", r.state is not None and r.state.pc is TRUE, f"only if {show(r.state.pc)[:200] if r.state else 'never'}", w)
    if not rep.ob("bounds", f"{tag}: result", v.op == "tuple" and len(v.args) == 2 and all(x.op in ("list", "tuple") for x in v.args), f"the result is {show(v)[:300]}", w):
        return
    N = Norm()
    # the road
    ok = len(unions) == 1 and unions[0].op in ("list", "tuple", "set")
    if rep.ob("road", f"{tag}: union", ok, f"{len(unions)} unions are formed", w):
        us = [buffered.get(x, (x, ZERO)) for x in unions[0].args]
        rep.ob("road", f"{tag}: lanelets", sorted(show(o) for o, _ in us) == sorted(show(T("attr", T("attr", l, "polygon"), "shapely_object")) for l in lanelets), f"the road is made of {[show(o) for o, _ in us]}"[:300], w)
        for o, d in us:
            rep.eq("road", f"{tag}: width of {show(o)[:60]}", N, d, BUF, w)
    # the gates
    gates = list(v.args[1].args)
    ends = []
    for g in gates:
        o, d = buffered.get(g, (g, ZERO))
        pts = lines.get(o)
        ends.append(set(pts.args) if pts is not None and pts.op in ("list", "tuple", "arr") and len(pts.args) == 2 else None)
        rep.holds("gates", f"{tag}: {show(g)} covers the buffer", Norm(assume=[T("cmp", "lt", ZERO, BUF)]), lnot(T("cmp", "lt", d, BUF)), w, what="a gate as wide as the buffer")
    for x in want:
        rep.ob("gates", f"{tag}: across {sorted(map(show, x))}", ends.count(x) == 1, f"there are {ends.count(x)} gates between {sorted(map(show, x))}", w)
    rep.ob("gates", f"{tag}: no other", len(ends) == len(want), f"there are {len(ends)} gates for {len(want)} open ends", w)
    # the boundaries
    bounds = list(v.args[0].args)
    inner = [i for _, _, ins in areas for i in ins]
    for i in inner:
        rep.ob("bounds", f"{tag}: {show(i)}", bounds.count(i) == 1, f"an inner outline is a boundary {bounds.count(i)} times", w)
    outer = [b for b in bounds if b not in inner]
    roots, lost = {}, []
    for b in outer:
        c = b.args[1] if b.op == "fn" and b.args[0] == "part" else b
        got, o = [], c
        while o in cuts:
            o, g = cuts[o]
            got.append(g)
        roots.setdefault(o, []).append((b, c, got))
    for _, e, _ in areas:
        bs = roots.pop(e, [])
        n = 1 if whole else 2
        rep.ob("bounds", f"{tag}: {show(e)}", len(bs) == n and len({c for _, c, _ in bs}) == 1 and len({b for b, _, _ in bs}) == n, f"{len(bs)} of {n} pieces of an outer outline are boundaries", w)
        for b, _, got in bs:
            rep.ob("bounds", f"{tag}: {show(e)} open at the gates", set(got) == set(gates), f"{len(set(got) & set(gates))} of {len(gates)} gates are cut out of an outer outline", w)
    rep.ob("bounds", f"{tag}: nothing else", not roots, f"also {[show(x) for x in roots]}"[:200], w)


def scenario(rep):
    ix = rep.ix
    q = ix.cls("DgScenario").qual
    m = ix.method("DgScenario", "__post_init__")
    w = f"{m.mod.path}:{m.node.lineno} {m.qual}"
    fq = ix.func("build_road_boundary_obstacle").qual
    ps = [a.arg for a in ix.funcs[fq].node.args.args]
    for use in (False, True):
        for there in (False, True):
            calls = []

            def build(ip, st, args, kwargs, node):
                d = dict(zip(ps, args))
                d.update(kwargs)
                calls.append((d, st.pc))
                return T("tuple", T("list", var("bound0"), var("bound1")), T("list", var("gate")))
            ip, st = Interp(ix, overrides={fq: build}), State()
            sc = var("scenario")
            ip.ext_types[sc] = frozenset(("commonroad.scenario.scenario.Scenario",))
            o = ip.instantiate(q, (), (("road_boundaries_buffer", BUF), ("scenario", sc if there else NONE), ("static_obstacles", NONE), ("use_road_boundaries", const(use))), st, None)
            rep.funcs |= ip.visited
            obs = ip.freeze(ip.getattr(o, "static_obstacles", st), st)
            tag = f"{'with' if use else 'without'} boundaries, {'with' if there else 'without'} scenario"
            shapes = [dict(x.args[1]).get("shape") for x in obs.args if x.op == "rec"] if obs.op in ("tuple", "list") else None
            want = [var("bound0"), var("bound1")] if use and there else []
            rep.ob("obstacles", tag, shapes == want, f"the obstacles are {show(obs)[:300]}", w)
            if use and there and calls:
                d, pc = calls[0]
                rep.ob("obstacles", f"{tag}: of itself", d.get("scenario") is sc, f"built from {show(d.get('scenario', NONE))}", w)
                rep.ob("obstacles", f"{tag}: buffer", d.get("buffer") is BUF, f"built with {show(d.get('buffer', NONE))}", w)
