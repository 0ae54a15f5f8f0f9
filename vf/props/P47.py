"""Both collision resolvers and the fault assessment run on networks with no to three lanes at the impact point, whose lane poses are free."""
from itertools import product

from ..collx import Coll, kwargs_of
from ..norm import Norm
from ..simx import rec_field
from ..terms import *
from ..types import Ty
from .P13 import leaves, strip

SIZES = ("fault", 3)
FIELDS = ("correct_direction", "lateral_inside", "along_inside")


def check(rep):
    rep.rule("fault", "a player is at fault exactly if it is off or against every lane at the impact point, in its own pose at that moment")
    rep.rule("free", "without a road network neither player is at fault")
    rep.rule("lane", "a lane is built from the boundaries and the centre line of its own lanelet")
    for n in range(4):
        fault(rep, n)
    fault(rep, None)
    built(rep)


def fault(rep, n):
    ix = rep.ix
    c = Coll(ix, "resolve_collision")
    ip, st = c.ip, c.st
    ctx, a, b = var("sim_context"), var("a"), var("b")
    models = T("attr", ctx, "models")
    net = T("attr", var("scenario"), "lanelet_network")
    scen = T("attr", ctx, "dg_scenario")
    where = f"{c.fi.mod.path}:{c.fi.node.lineno} {c.fi.qual}"
    ids = [var(f"id{i}") for i in range(n or 0)]
    lanes = [var(f"lane{i}") for i in range(n or 0)]
    asked = []
    ip.types[scen] = Ty(ix.cls("DgScenario").qual)
    st.heap[(scen, "scenario")] = NONE if n is None else var("scenario")
    if n is not None:
        ip.types[var("scenario")] = Ty("commonroad.scenario.scenario.Scenario")
        ip.types[net] = Ty("commonroad.scenario.lanelet.LaneletNetwork")
    for l in lanes:
        ip.types[l] = Ty(ix.cls("DgLanelet").qual)

    def by_position(ip, st, args, kw, node):
        pts = ip.freeze(kwargs_of(["point_list"], args[1:], kw)["point_list"], st)
        asked.append((ip.freeze(args[0], st), pts))
        k = len(pts.args) if pts.op in ("list", "tuple", "arr") else 1
        return ip.mk_list(tuple(ip.mk_list(tuple(ids), st) for _ in range(k)), st)

    def by_id(ip, st, args, kw, node):
        i = ip.freeze(kwargs_of(["lanelet_id"], args[1:], kw)["lanelet_id"], st)
        return T("fn", "lanelet", i)

    def convert(ip, st, args, kw, node):
        l = ip.freeze(list(args + tuple(v for _, v in kw))[-1], st)
        return next((x for i, x in zip(ids, lanes) if l is T("fn", "lanelet", i)), T("fn", "lane_of", l))

    def pose(ip, st, args, kw, node):
        d = kwargs_of(["q", "tol"], args[1:], kw)
        return lanepose(ip, st, ip.freeze(args[0], st), ip.freeze(d["q"], st))

    def lanepose(ip, st, lane, q):
        q = strip(q)
        key = T("fn", "pose_on", lane, q)
        o = ip.new_ref(ix.cls("DgLanePose").qual)
        f = {k: T("attr", key, k) for k in (z if isinstance(z, str) else z[0] for z in ix.dc_fields(ix.cls("DgLanePose").qual))}
        f["inside"] = land(f["lateral_inside"], f["along_inside"])
        for k, v in f.items():
            st.heap[(o, k)] = v
        return o

    ip.overrides.update({".find_lanelet_by_position": by_position, ".find_lanelet_by_id": by_id, ix.method("DgLanelet", "from_commonroad_lanelet").qual: convert,
                         ix.method("DgLanelet", "lane_pose_from_SE2_generic").qual: pose, ix.method("DgLanelet", "lane_pose_from_SE2Transform").qual: pose})
    c.res = ip.run(c.fi, args={"a": a, "b": b}, st=st)
    rep.saw(c.res)
    N = Norm(assume=[] if n is None else [lnot(T("cmp", "is", *x)) for x in ((NONE, var("scenario")), (var("scenario"), NONE))] + [var("scenario")])
    tag = "no road network" if n is None else f"{n} lanes"
    val, ok = c.res.frozen(), strip(c.res.state.pc)
    k = 0
    for cond, v in leaves(val):
        if v is NONE:
            continue
        g = land(ok, strip(cond))
        if N.fails(lnot(g)) is None:
            continue
        k += 1
        items = dict(rec_field(v, "players").args) if v.op == "rec" and rec_field(v, "players").op == "dict" else {}
        for p in (a, b):
            r = items.get(p)
            x = rec_field(r, "at_fault") if r is not None and r.op == "rec" else None
            if not rep.ob("fault", f"{tag}, {p.args[0]} reported", x is not None, f"no report on {p.args[0]}", where):
                continue
            if n is None:
                rep.equiv("free", p.args[0], N, strip(x), FALSE, where, g)
                continue
            q = T("fn", "SE2", *c.posevars(T("item", models, p)))
            legal = []
            for l in lanes:
                key = T("fn", "pose_on", l, q)
                legal.append(land(*(T("attr", key, f) for f in FIELDS)))
            rep.equiv("fault", f"{tag}, {p.args[0]}", N, strip(x), lnot(lor(*legal)), where, g)
    rep.count(f"reports, {tag}", k, 1)
    if n is not None:
        rep.count(f"lane queries, {tag}", len(asked), 1)
        for net_, pts in asked:
            one = pts.args if pts.op in ("list", "tuple", "arr") else ()
            xy = [tuple(z.args) if z.op in ("arr", "list", "tuple") else (z,) for z in one]
            rep.ob("fault", f"{tag}, impact point", net_ is net and bool(xy) and all(z == tuple(c.p.args) for z in xy), f"lanes looked up in {show(net_)[:60]} at {show(pts)[:100]}", where)
    rep.notes += ip.notes


def built(rep):
    from ..absint import Interp, State
    ix = rep.ix
    m = ix.method("DgLanelet", "from_commonroad_lanelet")
    got = []

    def fv(ip, st, args, kw, node):
        names = ["left_vertices", "right_vertices", "center_vertices"]
        args = [x for x in args if x.op not in ("cls",)]
        got.append({k: ip.freeze(v, st) for k, v in kwargs_of(names, args, kw).items()})
        return var("lane")

    ip, st = Interp(ix, overrides={ix.method("DgLanelet", "from_vertices").qual: fv}), State()
    l = var("lanelet")
    ip.types[l] = Ty("commonroad.scenario.lanelet.Lanelet")
    v = ip.call(ip.getattr(T("cls", ix.cls("DgLanelet").qual), "from_commonroad_lanelet", st), (l,), (), st, None)
    w = f"{m.mod.path}:{m.node.lineno} {m.qual}"
    rep.funcs.add(m.qual)
    rep.ob("lane", "built", ip.freeze(v, st) is var("lane") and len(got) == 1, f"the lane is {show(ip.freeze(v, st))[:100]}", w)
    for d in got:
        for k in ("left_vertices", "right_vertices", "center_vertices"):
            rep.ob("lane", k, strip(d.get(k, NONE)) is T("attr", l, k), f"{k} are {show(d.get(k, NONE))[:80]}", w)
