"""Gated effects of one arbitrary iteration around collision resolution: which pairs are examined, and what is reported for each outcome."""
from ..simx import *
from ..norm import Norm
from ..rule import Only
from . import P30


def check(rep):
    P30.built(Only(rep, aligned="the spatial index the obstacles are looked up in holds each obstacle's shape at its own position"))
    S = SimRun(rep.ix)
    rep.saw(S.res)
    N = Norm(assume=[S.cond])
    rep.rule("pairs", "every unordered pair of distinct active players with intersecting footprints is resolved exactly once")
    rep.rule("environment", "every active player is resolved against every static obstacle its footprint intersects exactly once")
    rep.rule("report", "each resolution's outcome is reported exactly once and moves the first collision time if earlier")
    done = setnorm(clean(S.ip.freeze(S.ip.hget(S.ip.seg["end"], S.ctx, "sim_terminated"), S.ip.seg["end"])))
    t1 = T("add", S.time, S.dt)
    env = [e for e in S.iter if e.kind == "call" and e.name.endswith("resolve_collision_with_environment")]
    prs = [e for e in S.iter if e.kind == "call" and e.name.endswith("resolve_collision")]
    rep.count("environment resolution sites", len(env), 1)
    rep.count("player pair resolution sites", len(prs), 1)
    rep.ob("environment", "sites", len(env) == 1, f"{len(env)} sites resolve collisions with the environment", env[0].where())
    rep.ob("pairs", "sites", len(prs) == 1, f"{len(prs)} sites resolve collisions among players", prs[0].where())
    fp = lambda p: T("mcall", T("item", S.models, p), "get_footprint", (), ())
    N2 = Norm(assume=[S.cond])
    go = lnot(done)
    # ---- players
    e = prs[0]
    w = e.where()
    b = bindargs(rep.ix.func("resolve_collision"), e.fargs, e.kwargs)
    pa, pb = clean(b["a"]), clean(b["b"])
    ok, why = pairs_of(S, e, pa, pb)
    rep.ob("pairs", "all-pairs", ok and not cut_short(S.ip, e), why or "the loop over the pairs can end early", w)
    rep.ob("pairs", "context", b["sim_context"] is S.ctx, "another context is passed", w)
    touch = {T("mcall", fp(x), "intersects", (fp(y),), ()) for x, y in ((pa, pb), (pb, pa))}
    g = rebuild(setnorm(clean(e.guard)), lambda x: T("touch") if x in touch else x)
    rep.equiv("pairs", "condition", N2, g, land(go, T("touch"), *extra_guard(e, pa, pb)), w)
    stale(rep, S, e.guard, "pairs", w)
    call = T("call", e.name, (), tuple(sorted({"a": pa, "b": pb, "sim_context": S.ctx}.items())))
    outcome(rep, S, e, "pairs", [pa, pb], TRUE, t1)
    # ---- environment
    e = env[0]
    w = e.where()
    b = bindargs(rep.ix.func("resolve_collision_with_environment"), e.fargs, e.kwargs)
    p = clean(b["a"])
    its = [(clean(l[0]), l) for l in e.loops]
    obst = T("attr", T("attr", S.ctx, "dg_scenario"), "static_obstacles")
    tree = T("attr", T("attr", S.ctx, "dg_scenario"), "strtree_obstacles")
    okp = len(its) == 2 and its[0][0] is S.players and p.op == "elem" and p is T("elem", S.players, e.loops[0][1])
    rep.ob("environment", "all-players", okp and not cut_short(S.ip, e), f"players examined are {[short(i[0]) for i in its[:1]]}", w)
    rep.ob("environment", "own-model", clean(b["a_model"]) is T("item", S.models, p), f"the model passed is {short(b['a_model'])}", w)
    rep.eq("environment", "time", N2, clean(b["time"]), t1, w)
    if okp:
        q, cond, ob = its[1][0], TRUE, None
        src = clean(e.loops[1][0])
        idx = T("elem", src, e.loops[1][1])
        if src.op == "mcall" and src.args[1] == "query":
            kw = dict(src.args[3])
            pred = kw.get("predicate", src.args[2][1] if len(src.args[2]) > 1 else None)
            geo = src.args[2][0] if src.args[2] else kw.get("geometry")
            rep.ob("environment", "index", src.args[0] is tree, f"the index queried is {short(src.args[0])}", w)
            rep.ob("environment", "shape", geo is fp(p), f"the shape looked up is {short(geo)}", w)
            rep.ob("environment", "predicate", pred is const("intersects"), f"the index is queried with predicate {pred}", w)
            rep.ob("environment", "obstacle", clean(b["b_obstacle"]) is T("item", obst, idx), f"the obstacle passed is {short(b['b_obstacle'])}", w)
            rep.equiv("environment", "condition", N2, setnorm(clean(e.guard)), go, w)
        elif src is obst:
            rep.ob("environment", "obstacle", clean(b["b_obstacle"]) is idx, f"the obstacle passed is {short(b['b_obstacle'])}", w)
            tt = {T("mcall", fp(p), "intersects", (T("attr", idx, "shape"),), ()), T("mcall", T("attr", idx, "shape"), "intersects", (fp(p),), ())}
            g = rebuild(setnorm(clean(e.guard)), lambda x: T("touch") if x in tt else x)
            rep.equiv("environment", "condition", N2, g, land(go, T("touch")), w)
        else:
            rep.ob("environment", "obstacles", False, f"obstacles examined are {short(src)}", w)
    stale(rep, S, e.loops[1][0] if len(e.loops) > 1 else e.guard, "environment", w)
    outcome(rep, S, e, "environment", [p], lnot(dyn(T("item", S.models, p), rep.ix)), t1)


def dyn(m, ix):
    return T("isdyn", m)


def stale(rep, S, t, rule, w):
    """footprints compared must be those after the step"""
    for x in subterms(t):
        if x.op == "mcall" and x.args[1] == "get_footprint":
            rep.ob(rule, "current-footprint", has_ver(x), "a footprint computed before the models were stepped is used", w)


def extra_guard(e, a, b):
    """a pair loop may exclude equal names or order the names itself"""
    out = []
    for c in conjuncts(clean(e.guard)):
        if c in (lnot(T("cmp", "eq", a, b)), lnot(T("cmp", "eq", b, a))) or c in (T("cmp", "lt", a, b), T("cmp", "lt", b, a)):
            out.append(c)
    return out


def base(it):
    while it.op == "fn" and it.args[0] in ("list", "tuple", "keys", "sorted") and len(it.args) == 2:
        it = it.args[1]
    return it


def pairs_of(S, e, a, b):
    """do (a, b) run through every unordered pair of distinct active players exactly once?"""
    P = S.players
    its = [clean(l[0]) for l in e.loops]
    if len(its) == 1:
        it = its[0]
        el = T("elem", it, e.loops[0][1])
        i0, i1 = T("item", el, const(0)), T("item", el, const(1))
        if it.op == "fn" and it.args[0] == "combinations" and base(it.args[1]) is P and isconst(it.args[2], 2):
            return {a, b} == {i0, i1}, f"the pair passed is ({short(a)}, {short(b)})"
        return False, f"pairs examined are {short(it)}"
    if len(its) == 2:
        o, i = its
        d0, d1 = e.loops[0][1], e.loops[1][1]
        e0, e1 = T("elem", o, d0), T("elem", i, d1)
        # every ordered pair, filtered to one order
        if base(o) is P and base(i) is P:
            g = conjuncts(clean(e.guard))
            lt = [c for c in g if c in (T("cmp", "lt", e0, e1), T("cmp", "lt", e1, e0))]
            return {a, b} == {e0, e1} and len(lt) == 1, "every pair is resolved twice or with itself"
        # outer element with its index, inner over the remainder
        rng = lambda t: t.args[1:] if t.op == "fn" and t.args[0] == "range" else None
        n = lambda t: t.op == "fn" and t.args[0] == "len" and base(t.args[1]) is P
        r0, r1 = rng(o), rng(i)
        plus1 = lambda x: {T("add", x, ONE), T("add", ONE, x)}
        at = lambda x: {T("item", S.players, x), T("item", T("fn", "list", P), x), T("item", T("fn", "tuple", P), x)}
        if r0 is not None and r1 is not None:
            r0 = r0 if len(r0) == 2 else (ZERO,) + tuple(r0)
            nn = n(r0[1]) or (r0[1].op in ("sub", "add") and any(n(x) for x in subterms(r0[1])))
            ok = isconst(r0[0], 0) and nn and len(r1) == 2 and r1[0] in plus1(e0) and n(r1[1])
            return ok and ((a in at(e0) and b in at(e1)) or (b in at(e0) and a in at(e1))), f"pairs examined are {short(o)} x {short(i)}"
        idx = T("index", P, d0)
        if base(o) is P and i.op in ("fn", "item", "slice"):
            sl = [x for x in subterms(i) if x.op in ("add",) and idx in x.args and ONE in x.args]
            starts = bool(sl) and contains(i, lambda x: x is P)
            return starts and {a, b} == {e0, e1}, f"pairs examined are {short(o)} x {short(i)}"
        return False, f"pairs examined are {short(o)} x {short(i)}"
    return False, f"pairs examined are {[short(x) for x in its]}"


def outcome(rep, S, e, what, names, applies, t1):
    """what is appended to the reports, when, and how the first collision time moves"""
    ctx = S.ctx
    CR = T("attr", ctx, "collision_reports")
    FT = T("attr", ctx, "first_collision_ts")
    mine = lambda x: x.loops == e.loops and x.seq > e.seq
    apps = [x for x in S.iter if x.kind == "mutate" and x.name == "append" and x.ftarget is not None and clean(x.ftarget) is CR and mine(x)]
    allapps = [x for x in S.iter if x.ftarget is not None and clean(x.ftarget) is CR and x.kind in ("mutate", "setitem") or (x.kind == "store" and x.name == "collision_reports")]
    ok = bool(apps) and exclusive(S, apps)
    foreign = [x for x in allapps if x.kind != "mutate" or x.name != "append" or not any(x.loops == r.loops and x.seq > r.seq for r in S.iter if r.kind == "call" and str(r.name).split(".")[-1] in RESOLVERS)]
    rep.ob("report", f"{what}-sites", ok and not foreign, f"{len(apps)} sites add the report of one resolution (of {len(allapps)} that change the reports)", e.where())
    if not ok:
        return
    ap = apps[0]
    w = ap.where()
    apguard, apval = merged(apps, lambda x: x.fargs[0])
    val = clean(apval)
    res = [x for x in subterms(val) if x.op == "call" and str(x.args[0]).endswith(e.name.split(".")[-1])]
    raised = [x for x in subterms(val) if x.op == "raised"] + [x for x in subterms(clean(apguard)) if x.op == "raised"]
    rep.ob("report", f"{what}-failure-handled", bool(raised) and all("CollisionException" in str(n) for x in raised for n in (x.args[0],)),
           f"a failing resolution is not turned into a report (handled: {[show(x.args[0]) for x in raised]})", w)
    if not res:
        rep.ob("report", f"{what}-value", False, f"the report added is {short(val)}", w)
        return
    R = res[0]
    ra = raised[0] if raised else None
    m = T("item", S.models, names[0])

    def canon(x):
        if x.op == "raised":
            return T("var", "FAILED")
        if x.op == "fn" and x.args[0] == "isinstance" and "DynObstacleModel" in str(x.args[2]) and clean(x.args[1]) is m:
            return T("isdyn", m)
        if x is R:
            return T("var", "REPORT")
        if x.op == "attr" and x.args[1] == "at_time":
            return t1
        if x.op == "cmp" and x.args[0] == "is" and NONE in x.args[1:]:
            y = x.args[1] if x.args[2] is NONE else x.args[2]
            if is_empty(y):
                return FALSE
        if x.op == "mu":
            return FT if isinstance(x.args[2], tuple) and x.args[2][1] == "first_collision_ts" else x
        return x
    cz = lambda t: rebuild(setnorm(clean(t)), canon)
    val = cz(apval)
    F, RR = var("FAILED"), var("REPORT")
    N = Norm(assume=[S.cond])
    site = cz(e.guard)
    want = land(site, lor(F, lnot(T("cmp", "is", NONE, RR))), rebuild(applies, canon))
    g = cz(apguard)
    # an empty report is never None
    rep.equiv("report", f"{what}-when", N, g, want, w)
    for v, _ in leaves(N, val, land(g, lnot(F))).items():
        rep.ob("report", f"{what}-value", v is RR, f"the report added is {short(v)}", w)
    for v, _ in leaves(N, val, land(g, F)).items():
        ok = is_empty(v)
        pl = at = None
        if ok:
            b = dict(v.args[2] if v.op == "call" else v.args[3])
            pl, at = b.get("players"), b.get("at_time")
            if v.op == "rec":
                pl, at = rec_field(v, "players"), rec_field(v, "at_time")
        rep.ob("report", f"{what}-failed-value", ok, f"a failed resolution adds {short(v)}", w)
        if ok:
            keys = {k for k, _ in pl.args} if pl.op == "dict" else dict_keys(pl, names)
            rep.ob("report", f"{what}-failed-players", keys == set(names), f"the empty report names {[short(k) for k in keys]}", w)
            rep.eq("report", f"{what}-failed-time", N, cz(at), t1, w)
    # first collision time
    st = [x for x in S.iter if x.kind == "store" and x.name == "first_collision_ts" and x.ftarget is ctx and mine(x)]
    ok = bool(st) and exclusive(S, st)
    rep.ob("report", f"{what}-first-time-sites", ok, f"{len(st)} sites move the first collision time", w)
    if ok:
        sg, sv = merged(st, lambda x: x.fvalue)
        new = ite(cz(sg), cz(sv), FT)
        wanted = ite(g, ite(T("cmp", "lt", t1, FT), t1, FT), FT)
        rep.eq("report", f"{what}-first-time", N, new, wanted, st[0].where())


RESOLVERS = ("resolve_collision", "resolve_collision_with_environment")


def exclusive(S, es):
    """no two of these effects happen for the same resolution"""
    N = Norm(assume=[S.cond])
    return all(N.fails(lnot(land(a.guard, b.guard))) is None for i, a in enumerate(es) for b in es[i + 1:])


def merged(es, val):
    """(condition under which one of them happens, its value)"""
    g, v = FALSE, val(es[-1])
    for x in es:
        g = lor(g, x.guard)
    for x in es[:-1][::-1]:
        v = ite(x.guard, val(x), v)
    return g, v


def dict_keys(pl, names):
    if pl.op == "comp" and pl.args[0] == "dict" and pl.args[2].op in ("tuple", "list") and pl.args[3] is TRUE:
        return set(pl.args[2].args)
    if pl.op in ("mcall", "fn") and "fromkeys" in [str(x) for x in pl.args]:
        for x in subterms(pl):
            if x.op in ("tuple", "list"):
                return set(x.args)
    return set()


def is_empty(v):
    return (v.op == "call" and str(v.args[0]).endswith("get_empty")) or (v.op == "mcall" and v.args[1] == "get_empty")
