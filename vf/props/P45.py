"""Closed forms of the lane following agent's control law, by abstract execution with symbolic poses and speeds, compared case by case."""
from ..absint import Interp, State
from ..norm import Norm
from ..calls import to_arr
from ..terms import *
from .P41 import by_name

PI = T("fn", "pi")
LT = lambda a, b: T("cmp", "lt", a, b)
LE = lambda a, b: lnot(T("cmp", "lt", b, a))
TINY = 1e-6


def check(rep):
    rep.rule("goal", "the goal point is a point of the path, ahead of the own progress by the minimum distance, at the look-ahead distance if there is one")
    rep.rule("lookahead", "the look-ahead distance is proportional to the speed, within its limits")
    rep.rule("steering", "the steering angle leads the rear axle to the goal point on an arc: it turns to the side of the goal, for any way of writing the heading")
    rep.rule("speed", "the reference speed is zero to yield and in emergencies; else the nominal speed, or less behind a slower vehicle that is too close")
    rep.rule("conditions", "one yields to those approaching from the right, an emergency are those from the left and oncoming ones ahead, within the given distances")
    rep.rule("everyone", "every other player is considered, in any order, and oneself is not")
    rep.rule("commands", "the commands control the own speed to the reference speed and the own steering angle to the desired one, at the own pose and progress on the lane")
    rep.rule("latch", "after an emergency the reference speed stays zero")
    rep.rule("agents", "an agent with a plan follows it by the time; an agent with a policy applies it to its own state")
    pursuit(rep)
    speed(rep)
    follower(rep)
    others(rep)


def where(ix, cls, m):
    f = ix.method(cls, m)
    return f"{f.mod.path}:{f.node.lineno} {f.qual}"


def se2(x, y, t):
    return T("fn", "SE2", x, y, t)


def pursuit(rep):
    ix = rep.ix
    q = ix.cls("PurePursuit").qual
    w = where(ix, "PurePursuit", "get_desired_steering")
    wg = where(ix, "PurePursuit", "find_goal_point")
    S, X, Y, TH, AL, V = map(var, ("s", "x", "y", "theta", "along", "speed"))
    path = var("path")
    seen = []

    def minimise(ip, st, args, kwargs, node):
        d = dict(zip(("fun", "bracket", "bounds"), args)) | dict(kwargs)
        f = d.get("fun", NONE)
        seen.append((ip.freeze(ip.call(f, (S,), (), st, node), st), ip.freeze(d.get("bounds", NONE), st)))
        return T("fn", "minimum", const(len(seen)))
    ip, st = Interp(ix), State()
    best = T("attr", T("fn", "minimum", ONE), "x")
    ip.overrides.update([by_name(ix, "center_point", lambda ip, st, d: se2(*[T("fn", k, ip.freeze(d["beta"], st)) for k in ("cx", "cy", "ct")])),
                         by_name(ix, "beta_from_along_lane", lambda ip, st, d: T("fn", "beta", ip.freeze(d["along_lane"], st)))])
    ip.overrides["scipy.optimize.minimize_scalar"] = minimise
    ip.types[path] = T_of(ix, "DgLanelet")
    K, LO, HI, MIN, L, LR = map(var, ("k", "look_min", "look_max", "min_distance", "length", "lr"))
    prm = ip.instantiate(ix.cls("PurePursuitParam").qual, (), (("k_lookahead", K), ("length", L), ("look_ahead_minmax", T("tuple", LO, HI)), ("lr", LR), ("min_distance", MIN)), st, None)
    pp = ip.instantiate(q, (prm,), (), st, None)
    for m, a in (("update_path", (path,)), ("update_pose", (se2(X, Y, TH), AL)), ("update_speed", (V,))):
        ip.call_method(pp, ix.find_method(q, m), a, (), st, None)
    facts = [LT(ZERO, K), LT(ZERO, LO), LT(LO, HI), LT(ZERO, MIN), LT(ZERO, L), LT(ZERO, LR)]
    N = Norm(assume=facts)
    look = ip.freeze(ip.call_method(pp, ix.find_method(q, "_get_lookahead"), (), (), st, None), st)
    want = T("fn", "min", T("fn", "max", T("mul", K, V), LO), HI)
    rep.eq("lookahead", "distance", N, look, want, where(ix, "PurePursuit", "_get_lookahead"))
    D = var("look")
    r = ip.freeze(ip.call_method(pp, ix.find_method(q, "find_goal_point"), (), (), st, None), st)
    if rep.ob("goal", "minimisation", len(seen) == 1 and r.op == "tuple" and len(r.args) == 2, f"{len(seen)} minimisations give {show(r)[:200]}", wg):
        f, bs = seen[0]
        sq = lambda t: T("mul", t, t)
        b = T("fn", "beta", S)
        dist = T("fn", "sqrt", T("add", sq(T("sub", X, T("fn", "cx", b))), sq(T("sub", Y, T("fn", "cy", b)))))
        gap = T("sub", dist, want)
        f = absolute(f)
        ok = N.diff(sq(f), sq(gap)) is None and N.fails(LE(ZERO, f)) is None or N.diff(f, sq(gap)) is None
        rep.ob("goal", "objective", ok, f"minimises {show(f)[:300]}", wg)
        if rep.ob("goal", "range", bs.op in ("tuple", "list", "arr") and len(bs.args) == 2, f"the range is {show(bs)[:200]}", wg):
            rep.eq("goal", "range from", N, bs.args[0], T("add", AL, MIN), wg)
            rep.holds("goal", "range to", N, LE(T("add", AL, want), bs.args[1]), wg, what="the range contains the look-ahead distance")
            to = subst(bs.args[1], {look: D})
            rep.holds("goal", "range ordered", Norm(assume=[LT(ZERO, D)]), LE(bs.args[0], to), wg, what="the range is not empty")
        rep.eq("goal", "progress", N, r.args[0], best, wg)
        gb = T("fn", "beta", best)
        for k, g, x in zip(("x", "y", "heading"), entries(r.args[1]), entries(se2(*[T("fn", k, gb) for k in ("cx", "cy", "ct")]))):
            rep.eq("goal", f"point {k}", N, g, x, wg)
    # steering, for a goal given in the frame of the rear axle
    seen.clear()
    d = ip.freeze(ip.call_method(pp, ix.find_method(q, "get_desired_steering"), (), (), st, None), st)
    rep.funcs |= ip.visited
    gb = T("fn", "beta", T("attr", T("fn", "minimum", const(1)), "x"))
    GX, GY, A = var("goal_x"), var("goal_y"), var("alpha")
    R = var("range")
    # goal at distance R > 0 from the rear axle, in direction alpha + theta
    ax, ay = T("sub", X, T("mul", LR, T("fn", "cos", TH))), T("sub", Y, T("mul", LR, T("fn", "sin", TH)))
    al = T("fn", "atan2", T("sub", GY, ay), T("sub", GX, ax))
    num = d.args[1] if d.op == "fn" and d.args[0] == "atan" and len(d.args) == 2 else T("div", *d.args[1:]) if d.op == "fn" and d.args[0] in ("atan2", "arctan2") else None
    if not rep.ob("steering", "angle", num is not None, f"the steering angle is {show(d)[:200]}", w):
        return
    gsub = {T("fn", "cx", gb): GX, T("fn", "cy", gb): GY}
    num = subst(num, gsub)
    N2 = Norm(assume=facts)
    sin = T("sub", T("fn", "sin", al), ZERO)
    # sine of the direction of the goal relative to the heading
    want_sin = T("sub", T("mul", T("fn", "sin", al), T("fn", "cos", TH)), T("mul", T("fn", "cos", al), T("fn", "sin", TH)))
    SA = var("sin_alpha")

    def abstract(t):
        if not isinstance(t, T):
            return t
        if t.op == "fn" and t.args[0] == "sin" and N2.diff(t, want_sin) is None:
            return SA
        if N2.numeric_like(t) and N2.diff(t, want) is None:
            return D
        a = tuple(abstract(x) for x in t.args)
        return t if a == t.args else T(t.op, *a)
    N2.numeric_like = lambda t: t.op == "fn" and t.args[0] in ("min", "max")
    u = abstract(num)
    rep.ob("steering", "depends on", {x for x in subterms(u) if x.op == "var"} <= {SA, D, L}, f"the steering angle depends on {show(u)[:300]}", w)
    dens = [subst(t.args[1], {SA: ZERO}) for t in subterms(u) if t.op == "div"]
    NN = Norm(assume=[LT(ZERO, D), LT(ZERO, L)])
    bad = [t for t in dens if NN.diff(t, ZERO) is None]
    rep.ob("steering", "straight ahead", not bad, "divides by zero when the goal is straight ahead", w)
    exact = strip(u)
    rep.eq("steering", "curvature", Norm(assume=[LT(ZERO, D), LT(ZERO, L), lnot(T("cmp", "eq", *sorted((SA, ZERO), key=lambda t: t.uid)))]), exact, T("div", T("mul", T("mul", const(2), L), SA), D), w)


def absolute(t):
    """the norm of a number is its absolute value"""
    if not isinstance(t, T):
        return t
    a = tuple(map(absolute, t.args))
    if t.op == "fn" and a[0] == "norm" and len(a) == 2 and a[1].op not in ("arr", "tuple", "list"):
        return T("fn", "abs", a[1])
    return t if a == t.args else T(t.op, *a)


def strip(t):
    """without terms that only keep denominators off zero"""
    if not isinstance(t, T):
        return t
    if t.op == "const" and isinstance(t.args[0], float) and 0 < abs(t.args[0]) <= TINY:
        return ZERO
    a = tuple(strip(x) for x in t.args)
    return t if a == t.args else T(t.op, *a)


def T_of(ix, name):
    from ..types import Ty
    return Ty(ix.cls(name).qual)


def entries(t):
    from ..calls import se2mat
    m = to_arr(se2mat(t) if t.op == "fn" else t)
    if m is None or len(m.args) != 3 or any(to_arr(x) is None for x in m.args):
        return [T("fn", k, t) for k in ("x", "y", "heading")]
    return [m.args[0].args[2], m.args[1].args[2], T("fn", "atan2", m.args[1].args[0], m.args[0].args[0])]


# ------------------------------------------------------------------ speed
def speed(rep):
    ix = rep.ix
    q = ix.cls("SpeedBehavior").qual
    w = where(ix, "SpeedBehavior", "get_speed_ref")
    vs, po = ix.cls("VehicleState").qual, ix.cls("PlayerObservations").qual
    P = {k: var(k) for k in ("nominal_speed", "yield_distance", "minimum_yield_vel", "safety_time_braking")}
    SPEED = const(130 / 3.6)
    facts = [LT(ZERO, v) for v in P.values()] + [LT(P["nominal_speed"], SPEED)]
    state = lambda n: {k: var(f"{k}_{n}") for k in ("x", "y", "psi", "vx", "delta")}
    far = {"x": const(4000), "y": const(3000), "psi": ZERO, "vx": ZERO, "delta": ZERO}
    zero = {"x": ZERO, "y": ZERO, "psi": ZERO, "vx": var("vx_me"), "delta": var("delta_me")}

    def run(players):
        ip, st = Interp(ix), State()
        sb = ip.instantiate(q, (), (), st, None)
        prm = ip.instantiate(ix.cls("SpeedBehaviorParam").qual, (), tuple(P.items()), st, None)
        ents = []
        for n, s in players:
            s = ip.instantiate(vs, (), tuple(s.items()), st, None)
            ents.append((const(n), ip.instantiate(po, (), (("occupancy", var(f"occ_{n}")), ("state", s)), st, None)))
        for k, v in (("my_name", const("me")), ("params", prm)):
            ip.setattr(sb, k, v, st, None)
        ip.call_method(sb, ix.find_method(q, "update_observations"), (T("dict", *ents),), (), st, None)
        v = ip.freeze(ip.call_method(sb, ix.find_method(q, "get_speed_ref"), (var("t"),), (), st, None), st)
        rep.funcs |= ip.visited
        return v if v.op == "tuple" and len(v.args) == 2 else None
    # in general position: the other at (RX, RY, RT) seen from the own pose
    RX, RY, D, RT = map(var, ("ahead", "aside", "distance", "heading"))
    me, a = state("me"), state("a")
    c, s = T("fn", "cos", me["psi"]), T("fn", "sin", me["psi"])
    a |= {"x": T("add", me["x"], T("sub", T("mul", c, RX), T("mul", s, RY))), "y": T("add", me["y"], T("add", T("mul", s, RX), T("mul", c, RY))), "psi": T("add", me["psi"], RT)}
    sq = lambda t: T("mul", t, t)
    N0 = Norm()
    same = lambda x, y: N0.diff(x, y) is None
    memo = {}

    def abstract(t):
        """in terms of the relative pose"""
        if not isinstance(t, T):
            return tuple(map(abstract, t)) if isinstance(t, tuple) else t
        if t not in memo:
            memo[t] = relative(t) or rebuild_(t)
        return memo[t]

    def rebuild_(t):
        x = tuple(abstract(y) for y in t.args)
        return t if x == t.args else T(t.op, *x)

    def relative(t):
        if t.op in ("add", "sub", "neg", "mul"):
            return next((v for k, v in ((RX, RX), (RY, RY), (RT, RT), (T("add", sq(RX), sq(RY)), sq(D)), (ZERO, ZERO), (ONE, ONE)) if same(t, k)), None)
        if t.op == "fn" and t.args[0] in ("atan2", "arctan2"):
            y, x = t.args[1:]
            if same(y, ZERO) and same(x, ONE):
                return ZERO
            if same(T("mul", y, T("fn", "cos", RT)), T("mul", x, T("fn", "sin", RT))) and same(T("add", sq(x), sq(y)), ONE) and same(T("add", T("mul", x, T("fn", "cos", RT)), T("mul", y, T("fn", "sin", RT))), ONE):
                return RT
        if t.op == "mod" and same(t.args[1], T("mul", const(2), PI)) and same(t.args[0], T("add", RT, PI)):
            return T("add", RT, PI)
        if t.op == "fn" and t.args[0] in ("sqrt", "hypot", "norm"):
            r = t.args[1] if t.args[0] == "sqrt" else T("add", sq(t.args[1]), sq(t.args[2])) if len(t.args) == 3 else None
            if r is not None and same(r, T("add", sq(RX), sq(RY))):
                return D
        return None
    VA, VM = a["vx"], me["vx"]
    quarter = lambda k: T("mul", T("div", const(k), const(4)), PI)
    moving = LT(P["minimum_yield_vel"], VA)
    near = LT(D, P["yield_distance"])
    right = land(LE(quarter(1), RT), LE(RT, quarter(3)), moving, near)
    left = land(LE(quarter(-3), RT), LE(RT, quarter(-1)), moving, near)
    ahead = land(LT(ZERO, RX), LE(const(-1.2), RY), LE(RY, const(1.2)))
    front = land(lor(LE(quarter(3), RT), LE(RT, quarter(-3))), ahead, LT(D, T("mul", P["safety_time_braking"], T("add", VM, VA))))
    slower = T("fn", "max", T("sub", VM, VA), ZERO)
    follow = land(LT(const(0.5), RX), LE(const(-1.2), RY), LE(RY, const(1.2)), LT(T("neg", T("div", PI, const(6))), RT), LT(RT, T("div", PI, const(6))),
                  LT(D, T("add", T("mul", VM, P["safety_time_braking"]), slower)))
    emergency = lor(left, front)
    stop = lor(right, emergency)
    adapted = T("fn", "min", P["nominal_speed"], T("fn", "max", T("sub", VA, slower), ZERO))
    ref = ite(stop, ZERO, ite(follow, adapted, P["nominal_speed"]))
    geo = [LE(T("neg", PI), RT), LE(RT, PI), LE(ZERO, D), LE(RX, D), LE(T("neg", D), RX), LE(RY, D), LE(T("neg", D), RY), LT(ZERO, PI)]
    v = run((("me", me), ("a", a)))
    if not rep.ob("speed", "result", v is not None, "does not give a reference speed and the need for an emergency", w):
        return
    got_ref, got_em = abstract(v.args[0]), abstract(v.args[1])
    left_over = {x for t in (got_ref, got_em) for x in subterms(t) if x.op == "var"} - {RX, RY, D, RT, VA, VM} - set(P.values())
    rep.ob("conditions", "frame", not left_over, f"depends on {sorted(map(show, left_over))} other than by the relative pose", w)
    if left_over:
        return
    N = Norm(assume=facts + geo)
    rep.equiv("conditions", "emergency", N, got_em, emergency, w)
    rep.equiv("conditions", "stop", Norm(assume=facts + geo + [LT(ZERO, VA), LT(ZERO, VM)]), T("cmp", "eq", *sorted((ZERO, got_ref), key=lambda t: t.uid)), lor(stop, land(follow, LE(VA, slower))), w)
    for tag, cond in (("to yield", right), ("in an emergency", land(emergency, lnot(right)))):
        rep.eq("speed", tag, N, got_ref, ZERO, w, when=cond)
    rep.eq("speed", "behind a vehicle", N, got_ref, adapted, w, when=land(lnot(stop), follow))
    rep.eq("speed", "otherwise", N, got_ref, P["nominal_speed"], w, when=land(lnot(stop), lnot(follow)))
    # everyone
    a = {"x": RX, "y": RY, "psi": RT, "vx": VA, "delta": a["delta"]}
    memo.clear()
    base = run((("me", zero), ("a", a)))
    for tag, ps in (("oneself last", (("a", a), ("me", zero))), ("another after", (("me", zero), ("a", a), ("z", far))), ("another before", (("z", far), ("a", a), ("me", zero))), ("between", (("a", a), ("me", zero), ("z", far)))):
        u = run(ps)
        if rep.ob("everyone", f"{tag}: result", u is not None and base is not None, "no result", w):
            n = Norm(assume=facts + geo)
            rep.eq("everyone", f"{tag}: speed", n, abstract(u.args[0]), abstract(base.args[0]), w)
            rep.equiv("everyone", f"{tag}: emergency", n, abstract(u.args[1]), abstract(base.args[1]), w)
    at = lambda n, x, psi: {"x": const(x), "y": ZERO, "psi": psi, "vx": var(f"vx_{n}"), "delta": ZERO}
    b, c = at("b", 6, ZERO), at("c", 8, ZERO)
    one = [run((("me", zero), ("b", b))), run((("c", c), ("me", zero)))]
    vx = [LT(ZERO, x["vx"]) for x in (zero, b, c)]
    for tag, ps in (("two ahead", (("b", b), ("c", c), ("me", zero))), ("two ahead reversed", (("me", zero), ("c", c), ("b", b)))):
        u = run(ps)
        if rep.ob("everyone", f"{tag}: result", u is not None and None not in one, "no result", w):
            rep.eq("everyone", f"{tag}: speed", Norm(assume=facts + vx), u.args[0], T("fn", "min", *[x.args[0] for x in one]), w)
    b, c = at("b", 3, var("psi_b")), at("c", 4, var("psi_c"))
    one = [run((("me", zero), ("b", b))), run((("c", c), ("me", zero)))]
    for tag, ps in (("two around", (("b", b), ("c", c), ("me", zero))), ("two around reversed", (("me", zero), ("c", c), ("b", b)))):
        u = run(ps)
        if rep.ob("everyone", f"{tag}: result", u is not None and None not in one, "no result", w):
            n = Norm(assume=facts + vx)
            rep.equiv("everyone", f"{tag}: emergency", n, u.args[1], lor(*[x.args[1] for x in one]), w)
            rep.eq("everyone", f"{tag}: stop", n, u.args[0], ZERO, w, when=lor(*[x.args[1] for x in one]))
    alone = run((("me", me),))
    if rep.ob("everyone", "alone: result", alone is not None, "no result", w):
        rep.eq("everyone", "alone: speed", N, abstract(alone.args[0]), P["nominal_speed"], w)
        rep.equiv("everyone", "alone: emergency", N, abstract(alone.args[1]), FALSE, w)


# ------------------------------------------------------------------ the agents
def observations(ip, ix, st, t, players):
    ents = []
    for n, fields in players:
        s = ip.instantiate(ix.cls("VehicleState").qual, (), tuple(fields.items()), st, None)
        ents.append((const(n), ip.instantiate(ix.cls("PlayerObservations").qual, (), (("occupancy", var(f"occ_{n}")), ("state", s)), st, None)))
    return ip.instantiate(ix.cls("SimObservations").qual, (), (("players", T("dict", *ents)), ("time", t)), st, None)


def init_obs(ip, ix, st, name):
    return ip.instantiate(ix.cls("InitSimObservations").qual, (), (("my_name", const(name)), ("seed", ZERO)), st, None)


def follower(rep):
    ix = rep.ix
    q = ix.cls("LFAgent").qual
    w = where(ix, "LFAgent", "get_commands")
    lane, geo = var("lane"), var("geometry")
    VMIN, VMAX, AMIN, AMAX, DM, DDM = map(var, ("vx_min", "vx_max", "acc_min", "acc_max", "delta_max", "ddelta_max"))
    facts = [LT(VMIN, VMAX), LT(VMIN, ZERO), LT(ZERO, VMAX), LT(AMIN, AMAX), LT(ZERO, DM), LT(ZERO, DDM)]
    flags = {}

    def get(ip, o, nm, st):
        return ip.freeze(ip.getattr(o, nm, st), st)

    def behaviour(ip, st, args, kwargs, node):
        o = args[0]
        key = (get(ip, o, "my_name", st), get(ip, o, "agents", st), ip.freeze((args[1:] + tuple(v for _, v in kwargs))[0], st))
        em = flags.setdefault(key, var(f"emergency{len(flags)}"))
        return T("tuple", T("fn", "ref", *key), em)

    def steer(ip, st, args, kwargs, node):
        return T("fn", "steer", *[get(ip, args[0], nm, st) for nm in ("pose", "along_path", "speed", "path")])

    def control(ip, st, args, kwargs, node):
        o = args[0]
        prm = ip.getattr(o, "params", st)
        return T("fn", "control", get(ip, prm, "output_minmax", st), get(ip, o, "measurement", st), get(ip, o, "reference", st), ip.freeze((args[1:] + tuple(v for _, v in kwargs))[0], st))

    def lanepose(ip, st, d):
        b = d["beta"]
        return T("fn", "along", ip.freeze(b, st))

    def describe(ip, st, d):
        v = T("fn", "lanepose", *[ip.freeze(x, st) for _, x in sorted(d.items())])
        st.heap[(v, "along_lane")] = ip.freeze(d["along_lane"], st)
        return v
    ov = dict([by_name(ix, "find_along_lane_closest_point", lambda ip, st, d: T("tuple", *[T("fn", k, *xy(ip.freeze(d["p"], st))) for k in ("closest", "closest_pose")])),
               by_name(ix, "along_lane_from_beta", lanepose), by_name(ix, "lane_pose", describe)])
    ov[ix.method("SpeedBehavior", "get_speed_ref").qual] = behaviour
    ov[ix.method("PurePursuit", "get_desired_steering").qual] = steer
    ov[ix.method("PID", "get_control").qual] = control
    ip, st = Interp(ix, overrides=ov), State()
    ip.types[lane] = T_of(ix, "DgLanelet")
    ip.types[geo] = T_of(ix, "VehicleGeometry")
    N = Norm(assume=facts)
    prm = ip.instantiate(ix.cls("VehicleParameters").qual, (), (("vx_limits", T("tuple", VMIN, VMAX)), ("acc_limits", T("tuple", AMIN, AMAX)), ("delta_max", DM), ("ddelta_max", DDM)), st, None)
    agent = ip.instantiate(q, (lane, prm, geo), (), st, None)
    ip.call_method(agent, ix.find_method(q, "on_episode_init"), (init_obs(ip, ix, st, "me"),), (), st, None)
    state = lambda n, k: {f: var(f"{f}_{n}_{k}") for f in ("x", "y", "psi", "vx", "delta")}
    ems = []
    clip = lambda x, lo, hi: T("fn", "min", T("fn", "max", x, lo), hi)
    for k in range(3):
        now = var(f"t{k}")
        me, other = state("me", k), state("a", k)
        o = observations(ip, ix, st, now, (("a", other), ("me", me)))
        cmd = ip.call_method(agent, ix.find_method(q, "get_commands"), (o,), (), st, None)
        players = get(ip, o, "players", st)
        key = next((kk for kk in flags if kk[0] is const("me") and kk[1] is players and N.diff(kk[2], now) is None), None)
        if not rep.ob("commands", f"step {k}: speed behaviour", key is not None, f"the reference speed is not asked for with the current observations and time, but with {[tuple(show(x)[:80] for x in kk) for kk in flags]}", w):
            return
        ems.append(flags[key])
        em = lor(*ems)
        ref = ite(em, ZERO, T("fn", "ref", *key))
        acc, dd = get(ip, cmd, "acc", st), get(ip, cmd, "ddelta", st)
        same_pose = se2(me["x"], me["y"], me["psi"])
        for nm, got, meas, out in (("speed", acc, me["vx"], (AMIN, AMAX)), ("steering", dd, me["delta"], (T("neg", DDM), DDM))):
            got = got if got.op == "fn" else None
            if not rep.ob("commands", f"step {k}: {nm}", got is not None and got.args[0] == "control", f"the command is not the {nm} controller's", w):
                return
            lim, m, r, at = got.args[1:]
            rep.eq("commands", f"step {k}: {nm} measured", N, m, meas, w)
            rep.eq("commands", f"step {k}: {nm} time", N, at, now, w)
            ok = lim.op in ("tuple", "list") and len(lim.args) == 2 and all(N.diff(x, y) is None for x, y in zip(lim.args, out))
            rep.ob("commands", f"step {k}: {nm} limits", ok, f"the output of the controller is limited to {show(lim)[:100]}", w)
            if nm == "speed":
                for tag, case in (("emergency now", ems[-1]), *((("emergency before", land(lor(*ems[:-1]), lnot(ems[-1]))),) if k else ()), ("no emergency", lnot(em))):
                    rep.eq("latch" if case is not lnot(em) else "commands", f"step {k}: reference speed, {tag}", N, r, clip(ref, VMIN, VMAX), w, when=case)
            else:
                u = [x for x in subterms(r) if x.op == "fn" and x.args[0] == "steer"]
                if not rep.ob("commands", f"step {k}: steering reference", bool(u), f"the steering angle does not follow the pure pursuit, but {show(r)[:100]}", w):
                    return
                S = var("steer")
                rep.eq("commands", f"step {k}: steering reference limited", N, subst(r, {x: S for x in u}), clip(S, T("neg", DM), DM), w)
                for x in u:
                    pose, along, speed, path = x.args[1:]
                    got_pose, want_pose = entries(pose), entries(same_pose)
                    for nm2, g, y in zip(("x", "y", "heading"), got_pose, want_pose):
                        rep.eq("commands", f"step {k}: pose {nm2}", N, g, y, w)
                    rep.eq("commands", f"step {k}: lane", N, path, lane, w)
                    rep.eq("commands", f"step {k}: pursuit speed", N, speed, ref, w)
                    want = T("fn", "along", T("fn", "closest", me["x"], me["y"]))
                    rep.eq("commands", f"step {k}: progress", N, along, want, w)
    rep.funcs |= ip.visited


def xy(p):
    a = to_arr(p)
    return a.args[:2] if a is not None and len(a.args) >= 2 else (p,)


def others(rep):
    ix = rep.ix
    # a plan
    q = ix.cls("NPAgent").qual
    ip, st = Interp(ix), State()
    sq = ix.cls("DgSampledSequence").qual
    ts = [var(f"t{i}") for i in range(3)]
    plan = ip.instantiate(sq, (), (("timestamps", T("tuple", *ts)), ("values", T("tuple", *[var(f"u{i}") for i in range(3)]))), st, None)
    agent = ip.instantiate(q, (plan,), (), st, None)
    facts = [LT(ts[0], ts[1]), LT(ts[1], ts[2])]
    w = where(ix, "NPAgent", "get_commands")
    NOW = var("now")
    ip.call_method(agent, ix.find_method(q, "on_episode_init"), (init_obs(ip, ix, st, "me"),), (), st, None)
    o = observations(ip, ix, st, NOW, (("me", {f: var(f"{f}_me") for f in ("x", "y", "psi", "vx", "delta")}),))
    asked = []
    f = ix.find_method(sq, "at_or_previous")

    def at(ip, st, args, kwargs, node):
        asked.append(args[0])
        return T("fn", "plan", ip.freeze((args[1:] + tuple(v for _, v in kwargs))[0], st))
    ip.overrides[ix.method("DgSampledSequence", "at_or_previous").qual] = at
    r = ip.freeze(ip.call_method(agent, ix.find_method(q, "get_commands"), (o,), (), st, None), st)
    rep.funcs |= ip.visited
    rep.eq("agents", "plan", Norm(assume=facts), r, T("fn", "plan", NOW), w)
    rep.ob("agents", "whose plan", asked == [plan], "it is not the own plan that is followed", w)
    # a policy
    q = ix.cls("PolicyAgent").qual
    w = where(ix, "PolicyAgent", "get_commands")
    for order in (("me", "a"), ("a", "me"), ("me",)):
        ip, st = Interp(ix), State()
        agent = ip.instantiate(q, (var("policy"),), (), st, None)
        ip.call_method(agent, ix.find_method(q, "on_episode_init"), (init_obs(ip, ix, st, "me"),), (), st, None)
        o = observations(ip, ix, st, NOW, [(n, {f: var(f"{f}_{n}") for f in ("x", "y", "psi", "vx", "delta")}) for n in order])
        seen = []
        ip.overrides["policy"] = lambda ip, st, a, k, nd: seen.append(a) or T("fn", "policy", *[ip.freeze(x, st) for x in a])
        r = ip.freeze(ip.call_method(agent, ix.find_method(q, "get_commands"), (o,), (), st, None), st)
        rep.funcs |= ip.visited
        mine = ip.freeze(ip.getattr(ip.getitem(ip.getattr(o, "players", st), const("me"), st), "state", st), st)
        ok = (r.op == "call" and r.args[0] is var("policy") or r.op == "call" and "policy" in show(r.args[0]) or r.op == "fn" and r.args[0] == "policy") and contains(r, lambda t: t is mine) and not contains(r, lambda t: t.op == "var" and t.args[0].endswith("_a"))
        rep.ob("agents", f"policy among {', '.join(order)}", ok, f"commands are {show(r)[:200]}", w)
