"""Abstract execution of the replication of recorded scenarios: recordings of concrete structure with symbolic poses, shapes and lanelets."""
from ..absint import Interp, State
from ..norm import Norm
from ..terms import *

OT = "commonroad.scenario.obstacle.ObstacleType"
TYPES = "UNKNOWN CAR TRUCK BUS BICYCLE PEDESTRIAN PRIORITY_VEHICLE PARKED_VEHICLE CONSTRUCTION_ZONE TRAIN ROAD_BOUNDARY MOTORCYCLE TAXI BUILDING PILLAR MEDIAN_STRIP".split()
RECT = frozenset(("commonroad.geometry.shape.Rectangle",))
PI = T("fn", "pi")


def check(rep):
    ix = rep.ix
    rep.rule("place", "every recorded obstacle that stands still becomes one static obstacle: its shape at its recorded pose, of its type; nothing else becomes one")
    rep.rule("players", "every other recorded obstacle that can be converted becomes one player with one model under the same name, the requested one as ego; the others are skipped")
    rep.rule("model", "a model starts at the recorded position, heading and speed, in the requested colour, with its axles within the recorded shape")
    rep.rule("agent", "the agent follows the lane found for its own obstacle in the scenario's network, within the limits and geometry of its own model")
    rep.rule("lane", "the lane is one that leads from the first to the last recorded position, the best aligned if there are several, else the recorded trajectory itself")
    rep.rule("pass", "the context gets the requested parameters, seed and description, and the loaded scenario")
    for ego in (None, "P1", "P0"):
        replica(rep, ego)
    for k in TYPES:
        model(rep, k)
    lanes(rep)


def fields(t):
    return dict(t.args[1]) if t.op == "rec" else {}


class Recording:
    def __init__(self, ix, **ov):
        self.ip, self.st = Interp(ix, overrides=ov), State()
        self.ip.ext_enums = {OT}

    def put(self, v, **a):
        for k, x in a.items():
            self.st.heap[(v, k)] = x

    def obstacle(self, i, kind, first=None, last=None):
        o = var(f"obs{i}")
        ini, tr = T("attr", o, "initial_state"), T("attr", T("attr", o, "prediction"), "trajectory")
        a, b = (var(f"{n}state{i}") for n in ("first", "last"))
        self.put(o, obstacle_type=T("ext", f"{OT}.{kind}"))
        p = first or T("arr", T("attr", o, "x"), T("attr", o, "y"))
        self.put(ini, position=p)
        self.put(a, position=p)
        self.put(b, position=last or p)
        self.put(tr, state_list=T("list", a, b))
        self.ip.ext_types[T("attr", o, "prediction")] = frozenset(("commonroad.prediction.prediction.TrajectoryPrediction",))
        self.ip.ext_types[T("attr", o, "obstacle_shape")] = RECT
        return o


def replica(rep, ego):
    ix = rep.ix
    fi = ix.func("get_scenario_commonroad_replica")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    tag = f"ego {ego}"
    scn, loads = var("scenario"), []

    def load(ip, st, args, kwargs, node):
        loads.append(tuple(args) + tuple(v for _, v in kwargs))
        return T("tuple", scn, var("problems"))

    def lane(ip, st, args, kwargs, node):
        d = dict(zip(("dyn_obs", "network"), args))
        d.update(kwargs)
        return T("fn", "lane", d["dyn_obs"], d["network"])
    R = Recording(ix, **{ix.func("load_commonroad_scenario").qual: load, ix.func("infer_lane_from_dyn_obs").qual: lane})
    ip, st = R.ip, R.st
    ip.ext_types[scn] = frozenset(("commonroad.scenario.scenario.Scenario",))
    kinds = [("CAR", (3, 4)), ("BICYCLE", (0, 5)), ("TRUCK", 0), ("MOTORCYCLE", (3, 4)), ("PEDESTRIAN", (-4, 3)), ("BUS", (-5, 0)), ("CAR", 0), ("PEDESTRIAN", 0)]
    at = {}
    dyn = []
    for i, (k, m) in enumerate(kinds):
        dx, dy = m or (0, 0)
        x, y = 10 * i + 1, 7 * i + 2
        at[i] = (x, y)
        dyn.append(R.obstacle(i, k, T("arr", const(x), const(y)), T("arr", const(x + dx), const(y + dy))))
    n = len(dyn)
    fixed = [R.obstacle(i, "PILLAR", T("arr", const(10 * i + 1), const(7 * i + 2))) for i in (n, n + 1)]
    for i in (n, n + 1):
        at[i] = (10 * i + 1, 7 * i + 2)
    R.put(scn, dynamic_obstacles=T("list", *dyn), static_obstacles=T("list", *fixed))
    r = ip.run(fi, {"scenario_name": var("name"), "scenarios_dir": var("dir"), "sim_param": var("param"), "ego_player": const(ego), "seed": var("seed"), "description": var("description")}, st=st)
    rep.saw(r)
    if not rep.ob("players", f"{tag}: completes", r.state is not None and r.state.pc is TRUE and not r.raises, f"the replication completes only if {show(r.state.pc)[:200] if r.state else 'never'}", w):
        return
    c = fields(ip.freeze(r.value, r.state))
    rep.ob("pass", f"{tag}: loads", len(loads) == 1 and loads[0] == (var("name"), var("dir")), f"loads {[tuple(map(show, x)) for x in loads]}", w)
    N = Norm()
    rep.eq("pass", f"{tag}: parameters", Norm(assume=[lnot(T("cmp", "is", *sorted((NONE, var("param")), key=lambda t: t.uid)))]), c.get("param", NONE), var("param"), w)
    for k in ("seed", "description"):
        rep.eq("pass", f"{tag}: {k}", N, c.get(k, NONE), var(k), w)
    d = fields(c.get("dg_scenario", NONE))
    rep.ob("pass", f"{tag}: scenario", d.get("scenario") is scn, f"the scenario is {show(d.get('scenario', NONE))[:200]}", w)
    # static obstacles
    obs = d.get("static_obstacles", NONE)
    if rep.ob("place", f"{tag}: static obstacles", obs.op in ("tuple", "list") and all(x.op == "rec" for x in obs.args), f"they are {show(obs)[:300]}", w):
        want = [(i, o, k) for i, (o, (k, m)) in enumerate(zip(dyn, kinds)) if not m] + [(n + j, o, "PILLAR") for j, o in enumerate(fixed)]
        rep.ob("place", f"{tag}: number", len(obs.args) == len(want), f"{len(obs.args)} static obstacles instead of {len(want)}", w)
        got = [fields(x) for x in obs.args]
        for i, o, k in want:
            th, (x, y) = T("attr", T("attr", o, "initial_state"), "orientation"), at[i]
            co, si = T("fn", "cos", th), T("fn", "sin", th)
            shp = T("fn", "affine", T("attr", T("attr", o, "obstacle_shape"), "shapely_object"), co, T("neg", si), si, co, const(x), const(y))
            mine = [g for g in got if contains(g["shape"], lambda t: t is o)]
            if rep.ob("place", f"{tag}: {show(o)} once", len(mine) == 1, f"{show(o)} is placed {len(mine)} times", w):
                rep.eq("place", f"{tag}: {show(o)} pose", N, mine[0]["shape"], shp, w)
                rep.ob("place", f"{tag}: {show(o)} type", mine[0].get("obstacle_type") is T("ext", f"{OT}.{k}"), f"its type is {show(mine[0].get('obstacle_type', NONE))}", w)
    # players
    moving = {("Ego" if f"P{i}" == ego else f"P{i}"): o for i, (o, (k, m)) in enumerate(zip(dyn, kinds)) if m and k not in ("MOTORCYCLE", "PEDESTRIAN")}
    tables = {}
    for what in ("players", "models"):
        t = c.get(what, NONE)
        ok = t.op == "dict" and all(len(e) == 2 and e[0].op == "const" for e in t.args if isinstance(e, tuple))
        if not rep.ob("players", f"{tag}: {what}", ok, f"the {what} are {show(t)[:200]}", w):
            return
        tables[what] = {e[0].args[0]: e[1] for e in t.args}
        opt = {f"P{i}" for i, (k, m) in enumerate(kinds) if m and k in ("MOTORCYCLE", "PEDESTRIAN")}
        keys = set(tables[what])
        rep.ob("players", f"{tag}: names of {what}", keys - opt == set(moving), f"the {what} are {sorted(keys)}, expected {sorted(moving)}", w)
    rep.ob("players", f"{tag}: a model for every player", set(tables["players"]) == set(tables["models"]), "the players and the models have different names", w)
    moving.update({f"P{i}": o for i, o in enumerate(dyn) if f"P{i}" in tables["players"]})
    for name, o in moving.items():
        a, m = fields(tables["players"].get(name, NONE)), fields(tables["models"].get(name, NONE))
        s = fields(m.get("_state", NONE))
        i = dyn.index(o)
        rep.ob("players", f"{tag}: {name} is {show(o)}", isconst(s.get("x", NONE), at[i][0]) and isconst(s.get("y", NONE), at[i][1]), f"the model of {name} starts at {show(s.get('x', NONE))[:60]}, {show(s.get('y', NONE))[:60]}", w)
        rep.ob("agent", f"{tag}: lane of {name}", a.get("ref_lane") is T("fn", "lane", o, T("attr", scn, "lanelet_network")), f"{name} follows {show(a.get('ref_lane', NONE))[:150]}", w)
        vg, vp = fields(m.get("vg", NONE)), fields(m.get("vp", m.get("pp", NONE)))
        sp, stp, pp = (fields(fields(a.get(k, NONE)).get(q, NONE)) for k, q in (("speed_controller", "params"), ("steer_controller", "params"), ("pure_pursuit", "param")))
        pair = lambda v: T("tuple", T("neg", v), v)
        for what, g, v in (("speeds", sp.get("setpoint_minmax"), vp.get("vx_limits")), ("accelerations", sp.get("output_minmax"), vp.get("acc_limits")),
                           ("steering angles", stp.get("setpoint_minmax"), vp.get("delta_max") and pair(vp["delta_max"])), ("steering rates", stp.get("output_minmax"), vp.get("ddelta_max") and pair(vp["ddelta_max"])),
                           ("wheelbase", pp.get("length"), vg.get("lf") and T("add", vg["lf"], vg["lr"])), ("rear axle", pp.get("lr"), vg.get("lr"))):
            if rep.ob("agent", f"{tag}: {what} of {name} there", g is not None and v is not None, f"no {what}", w):
                rep.eq("agent", f"{tag}: {what} of {name}", N, g, v, w)


def model(rep, kind):
    ix = rep.ix
    fi = ix.func("infer_model_from_cr_dyn_obstacle")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    R = Recording(ix)
    o = R.obstacle(0, kind)
    r = R.ip.run(fi, {"dyn_obs": o, "color": var("color")}, st=R.st)
    rep.saw(r)
    N = Norm()
    if r.state is None or r.state.pc is FALSE:
        qs = [R.ip.clsof(x.value) for x in r.raises]
        ok = bool(qs) and all(q == ix.cls("NotSupportedConversion").qual for q in qs)
        rep.ob("model", f"{kind}: refused", ok and kind not in ("CAR", "TRUCK", "BUS", "BICYCLE"), f"an obstacle of type {kind} is refused with {qs}", w)
        return
    rep.ob("model", f"{kind}: completes", r.state.pc is TRUE, f"only if {show(r.state.pc)[:200]}", w)
    v = R.ip.freeze(r.value, r.state)
    m = fields(v)
    s = fields(m.get("_state", NONE))
    if not rep.ob("model", f"{kind}: state", bool(s), f"the model is {show(v)[:200]}", w):
        return
    ini = T("attr", o, "initial_state")
    for k, x in (("x", T("attr", o, "x")), ("y", T("attr", o, "y")), ("psi", T("attr", ini, "orientation")), ("vx", T("attr", ini, "velocity"))):
        rep.eq("model", f"{kind}: {k}", N, s.get(k, NONE), x, w)
    if "vy" in s:
        rep.eq("model", f"{kind}: vy", N, s["vy"], ZERO, w)
    rep.ob("model", f"{kind}: mode", (v.args[0].split(".")[-1] == "PedestrianModel") == (kind == "PEDESTRIAN"), f"a {kind} is modelled by {v.args[0]}", w)
    g = fields(m.get("vg", NONE))
    if kind != "PEDESTRIAN" and rep.ob("model", f"{kind}: geometry", bool(g), f"the geometry is {show(m.get('vg', NONE))[:200]}", w):
        rep.eq("model", f"{kind}: colour", N, g["color"], var("color"), w)
        rep.ob("model", f"{kind}: vehicle type", (g["vehicle_type"] is const("bicycle")) == (kind == "BICYCLE"), f"a {kind} has the vehicle type {show(g['vehicle_type'])}", w)
        sh = T("attr", o, "obstacle_shape")
        L, W = T("attr", sh, "length"), T("attr", sh, "width")
        A = Norm(assume=[T("cmp", "lt", ZERO, L), T("cmp", "lt", ZERO, W)])
        half = lambda t: T("div", t, const(2))
        for what, a, b in (("front axle", g["lf"], half(L)), ("rear axle", g["lr"], half(L)), ("half width", g["w_half"], half(W))):
            rep.holds("model", f"{kind}: {what}", A, land(T("cmp", "lt", ZERO, a), lnot(T("cmp", "lt", b, a))), w, what=f"the {what} within the recorded shape")


LANES = (
    # lanelets at the first position, at the last, merged lanelets from each of the first, allowed results
    ("no lanelet at the start", (), (3,), {}, ()),
    ("no lanelet at the end", (1,), (), {1: ((1, 2),)}, ()),
    ("no lanelet at all", (), (), {}, ()),
    ("no lane to the end", (1,), (5,), {1: ((1, 45, 12), (1, 51))}, ()),
    ("one lane", (1,), (5,), {1: ((1, 45, 12), (1, 2, 5))}, ((1, 2, 5),)),
    ("the lane leads on", (1,), (5,), {1: ((1, 5, 12), (1, 25))}, ((1, 5, 12),)),
    ("same lanelet", (7,), (7,), {7: ((7,),)}, ((7,),)),
    ("several at the end", (1,), (8, 5), {1: ((1, 2, 5), (1, 3))}, ((1, 2, 5),)),
    ("second lanelet at the start", (1, 2), (5,), {1: ((1, 3),), 2: ((2, 15), (2, 5))}, ((2, 5),)),
    ("two branches", (1,), (5, 6), {1: ((1, 5), (1, 15, 16), (1, 2, 6))}, ((1, 5), (1, 2, 6))),
    ("two starts", (1, 2), (5,), {1: ((1, 5), (1, 9)), 2: ((2, 5),)}, ((1, 5), (2, 5))),
)


def lanes(rep):
    ix = rep.ix
    fi = ix.func("infer_lane_from_dyn_obs")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    net = var("network")
    conv = ix.method("DgLanelet", "from_commonroad_lanelet").qual
    near = [ix.method("DgLanelet", m).qual for m in ("find_along_lane_closest_point", "find_along_lane_closest_point_fast")]
    for tag, first, last, merged, want in LANES:
        P, Q = var("start"), var("end")
        calls = []

        def by_position(ip, st, args, kwargs, node):
            ps = ip.freeze(args[1] if len(args) > 1 else dict(kwargs)["point_list"], st)
            return T("list", *[T("list", *map(const, {P: first, Q: last}[p])) for p in ps.args])

        def by_id(ip, st, args, kwargs, node):
            return T("fn", "lanelet", args[1] if len(args) > 1 else dict(kwargs)["lanelet_id"])

        def merge(ip, st, args, kwargs, node):
            d = dict(zip(("lanelet", "network"), args[1:])) | dict(kwargs)
            i = d["lanelet"].args[1].args[0]
            calls.append(d["network"])
            return T("tuple", T("list", *[T("fn", "merged", const(str(m))) for m in merged[i]]), T("list", *[T("list", *map(const, m)) for m in merged[i]]))

        def convert(ip, st, args, kwargs, node):
            return T("fn", "lane", args[-1] if args else kwargs[0][1])

        def closest(ip, st, args, kwargs, node):
            p = args[1] if len(args) > 1 else kwargs[0][1]
            return T("tuple", T("fn", "beta", args[0], p), T("fn", "SE2", T("fn", "x", args[0], p), T("fn", "y", args[0], p), T("fn", "heading", args[0], p)))
        ov = {".find_lanelet_by_position": by_position, ".find_lanelet_by_id": by_id, ".all_lanelets_by_merging_successors_from_lanelet": merge, conv: convert,
              ".from_commonroad_lanelet": convert, **{k: closest for k in near}, **{"." + k.split(".")[-1]: closest for k in near}}
        R = Recording(ix, **ov)
        o = R.obstacle(0, "CAR", P, Q)
        r = R.ip.run(fi, {"dyn_obs": o, "network": net}, st=R.st)
        rep.saw(r)
        psi = T("attr", T("attr", o, "initial_state"), "orientation")
        if not rep.ob("lane", f"{tag}: completes", r.state is not None, "never completes", w):
            continue
        v = R.ip.freeze(r.value, r.state)
        if not want:
            # the trajectory itself
            cps = fields(v).get("control_points", NONE)
            ok = v.op == "rec" and v.args[0] == ix.cls("DgLanelet").qual and cps.op in ("list", "tuple") and len(cps.args) == 2
            if not rep.ob("lane", f"{tag}: the trajectory", ok, f"the lane is {show(v)[:200]}", w):
                continue
            for c, s, p in zip(cps.args, (var("firststate0"), var("laststate0")), (P, Q)):
                q = fields(fields(c).get("q", NONE))
                rep.eq("lane", f"{tag}: position at {show(s)}", Norm(), q.get("p", NONE), p, w)
                rep.eq("lane", f"{tag}: heading at {show(s)}", Norm(angle_mod=True), q.get("theta", NONE), T("attr", s, "orientation"), w)
                rep.holds("lane", f"{tag}: width at {show(s)}", Norm(), T("cmp", "lt", ZERO, fields(c).get("r", ZERO)), w, what="a positive width")
            continue
        rep.ob("lane", f"{tag}: network", all(c is net for c in calls), "lanes are merged in another network", w)
        ls = [T("fn", "lane", T("fn", "merged", const(str(m)))) for m in want]
        if len(ls) == 1:
            rep.ob("lane", f"{tag}: chosen", v is ls[0] and r.state.pc is TRUE, f"the lane is {show(v)[:300]}", w)
            continue
        ms = [T("attr", l, "misalignment") for l in ls]
        v = selection(v, ls, ms, psi, P)
        pc = selection(r.state.pc, ls, ms, psi, P)
        others = [t for t in subterms(v) if t.op == "fn" and t.args[0] == "lane" and t not in ls]
        rep.ob("lane", f"{tag}: candidates", not others, f"{show(others[0])[:100] if others else ''} is a candidate", w)
        lim = [T("cmp", "lt", m, const(float("inf"))) for m in ms]
        for i in (0, 1):
            A = Norm(assume=[T("cmp", "lt", ms[i], ms[1 - i]), *lim])
            rep.eq("lane", f"{tag}: the best aligned is {i}", A, v, ls[i], w)
            rep.holds("lane", f"{tag}: no failure {i}", A, pc, w, what="the selection completes")


def selection(v, ls, ms, psi, P):
    """expresses a choice between lanes by their misalignments: angles between 0 and pi, or decreasing functions of the cosine"""
    n = Norm()
    keys = []
    for l, m in zip(ls, ms):
        for a, b in ((psi, 1), (psi, -1)):
            th = T("fn", "heading", l, P)
            d = T("sub", a, th) if b == 1 else T("sub", th, a)
            wrap = T("fn", "atan2", T("fn", "sin", d), T("fn", "cos", d))
            two = T("mul", const(2), PI)
            turn = T("sub", T("mod", T("add", d, PI), two), PI)
            for k in (wrap, turn):
                keys.append((T("fn", "abs", k), m))
                keys.append((T("pow", k, const(2)), m))
            c = T("fn", "cos", d)
            keys.append((c, T("neg", m)))
            keys.append((T("sub", ONE, c), m))
            keys.append((T("neg", c), m))

    def go(t, memo={}):
        if not isinstance(t, T):
            return tuple(map(go, t)) if isinstance(t, tuple) else t
        if t.op in ("fn", "sub", "add", "mul", "neg", "pow") and contains(t, lambda x: x.op == "fn" and x.args[0] == "heading"):
            for k, m in keys:
                if n.diff(t, k) is None:
                    return m
        args = tuple(go(a) for a in t.args)
        if t.op == "item" and args[0].op in ("list", "tuple"):
            i = args[1]
            while i.op == "fn" and i.args[0] == "int":
                i = i.args[1]
            if i.op == "fn" and i.args[0] in ("argmin", "argmax") and len(i.args) == 2 and i.args[1].op in ("list", "tuple", "arr") and len(i.args[1].args) == len(args[0].args):
                ks, es = i.args[1].args, args[0].args
                r, b = es[0], ks[0]
                for k, e in zip(ks[1:], es[1:]):
                    c = T("cmp", "lt", k, b) if i.args[0] == "argmin" else T("cmp", "lt", b, k)
                    r, b = ite(c, e, r), ite(c, k, b)
                return r
        return t if args == t.args else T(t.op, *args)
    return go(v)
