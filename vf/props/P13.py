"""Gated effects and the returned report of both collision resolvers, for arbitrary bodies and contacts."""
from ..collx import *
from ..norm import Norm
from ..rule import Only
from . import P14

ASSUMES = ["a body's footprint, impact mesh and geometry do not depend on its velocity"]
KEEP = ("get_footprint", "get_mesh", "get_pose", "model_geometry")


def strip(t):
    """footprints, meshes and geometries are the same before and after the velocities change"""
    def f(x):
        if x.op == "mcall" and len(x.args) > 4 and x.args[1] in KEEP:
            return T("mcall", *x.args[:4])
        if x.op == "attr" and len(x.args) > 2 and x.args[1] in KEEP:
            return T("attr", *x.args[:2])
        if x.op == "mcall" and x.args[1] == "intersects" and len(x.args[2]) + len(x.args[3]) == 1:
            y = x.args[2][0] if x.args[2] else x.args[3][0][1]
            return T("touches", *sorted((x.args[0], y), key=show))
        return x
    return rebuild(t, f)


def leaves(t, cond=TRUE):
    if t.op == "ite":
        yield from leaves(t.args[1], land(cond, t.args[0]))
        yield from leaves(t.args[2], land(cond, lnot(t.args[0])))
    else:
        yield cond, t


def check(rep):
    rep.rule("separating", "nothing is returned exactly if the contact points are already separating")
    rep.rule("untouched", "bodies are touched only if the contact is resolved, and nothing can fail afterwards")
    rep.rule("applied", "every body of a resolved contact is marked and gets its velocity exactly once")
    rep.rule("report", "the report states what was applied to whom")
    ix = rep.ix
    a, b = var("a"), var("b")
    ctx = var("sim_context")
    models = T("attr", ctx, "models")
    one(rep, Coll(ix, "resolve_collision"), "pair", {a: T("item", models, a), b: T("item", models, b)}, None, T("attr", ctx, "time"))
    one(rep, Coll(ix, "resolve_collision_with_environment"), "environment", {a: var("a_model")}, var("b_obstacle"), var("time"))
    P14.check(Only(rep, **{"read-back": "the velocity a model is given is the velocity it then has"}))


def one(rep, c, what, bodies, obst, now):
    c.run()
    res = c.res
    rep.saw(res)
    ip, st = c.ip, res.state
    N = Norm()
    where = f"{c.fi.mod.path}:{c.fi.node.lineno} {c.fi.qual}"
    fp = {p: T("mcall", m, "get_footprint", (), ()) for p, m in bodies.items()}
    ps = list(bodies)
    shapes = [fp[p] for p in ps] + ([T("attr", obst, "shape")] if obst is not None else [])
    rep.count(f"{what} contact computations", len(c.contact_args), 1)
    rep.ob("separating", f"{what}-contact", all((strip(x), strip(y)) == tuple(shapes) for x, y in c.contact_args),
           f"the contact is computed between {[show(x)[:80] for x in c.contact_args[0]]}", where)
    n, P = c.n.args, c.p.args
    B = [c.body(m) for m in bodies.values()]
    vel = [at_point(z["v"], z["w"], vsub(P, z["pos"])) for z in B]
    rel = vsub(*vel) if len(vel) == 2 else vel[0]
    sep = T("cmp", "lt", dot(rel, n), ZERO)
    val = res.frozen()
    # what is returned, where the call returns
    ok = strip(st.pc)
    none = lor(*[cond for cond, v in leaves(val) if v is NONE])
    rep.equiv("separating", what, N, strip(none), sep, where, ok)
    # ---- effects on bodies
    owner = set(bodies.values())
    touch = [e for e in res.effects if e.kind in ("store", "setitem", "mutate") and root(e.ftarget if e.ftarget is not None else e.target) in owner
             or e.kind == "call" and e.target in owner and e.name not in ("get_footprint", "get_mesh", "get_pose", "get_velocity", "get_state", "get_extra_collision_friction_acc")]
    for e in touch:
        g = strip(e.guard)
        rep.holds("untouched", f"{what}-separating-{short(e.target)}-{e.name}", N, lnot(sep), e.where(), g, "the bodies are not separating")
        bad = None
        for r in res.effects:
            if r.seq > e.seq and (r.kind in ("raise", "assert", "badcall") or r.kind == "call" and r.name == "compute_impact_geometry"):
                if N.fails(lnot(land(g, strip(r.guard)))) is not None:
                    bad = r
        rep.ob("untouched", f"{what}-after-failure-{short(e.target)}-{e.name}", bad is None, bad and f"fails at {bad.where()} after the body was changed", e.where())
    others = [e for e in res.effects if e.kind in ("store", "setitem", "mutate") and not fresh(ip, e) and e not in touch]
    rep.ob("untouched", f"{what}-others", not others, f"also changes {others[:1]!r}"[:300], others[0].where() if others else where)
    for p, m in bodies.items():
        ms = [e for e in res.effects if e.kind == "store" and e.target is m and e.name == "has_collided"]
        rep.ob("applied", f"{what}-mark-{p.args[0]}", bool(ms) and all(e.fvalue is TRUE for e in ms), f"has_collided becomes {[show(e.fvalue)[:60] for e in ms]}", where)
        rep.equiv("applied", f"{what}-marked-{p.args[0]}", N, lor(*[strip(e.guard) for e in ms]), lnot(sep), where, ok)
        ss = [e for e in c.sets if e.target is m]
        rep.ob("applied", f"{what}-velocity-{p.args[0]}", bool(ss), "no velocity is imposed", where)
        rep.equiv("applied", f"{what}-velocity-when-{p.args[0]}", N, lor(*[strip(e.guard) for e in ss]), lnot(sep), where, ok)
        for i, e in enumerate(ss):
            for f in ss[i + 1:]:
                rep.holds("applied", f"{what}-velocity-once-{p.args[0]}", N, lnot(land(strip(e.guard), strip(f.guard))), f.where(), TRUE, "the velocity is imposed once")
    rep.ob("applied", f"{what}-others", all(e.target in owner for e in c.sets), "a velocity is imposed on something else", where)
    # ---- report
    k = 0
    for cond, v in leaves(val):
        if v is NONE:
            continue
        g = land(ok, strip(cond))
        if N.fails(lnot(g)) is None:
            continue
        k += 1
        if not (v.op == "rec" and v.args[0].endswith(".CollisionReport")):
            rep.ob("report", f"{what}-type", False, f"returns {show(v)[:200]}", where)
            continue
        d = dict(v.args[1])
        rep.eq("report", f"{what}-time", N, d["at_time"], now, where, g)
        rep.eq("report", f"{what}-normal", N, d["impact_normal"], c.n, where, g)
        rep.eq("report", f"{what}-point", N, d["impact_point"], var("P"), where, g)
        pl = d["players"]
        env = [] if obst is None else [const("Env")]
        items = dict(pl.args) if pl.op == "dict" else {}
        rep.ob("report", f"{what}-players", list(items) and set(items) == set(ps + env), f"the report names {[show(x) for x in items]}", where)
        for i, p in enumerate(ps):
            r = items.get(p)
            if r is None or r.op != "rec":
                rep.ob("report", f"{what}-{p.args[0]}", False, f"the report of {p.args[0]} is {show(r)[:200] if r is not None else 'missing'}", where)
                continue
            f = {k2: strip(x) for k2, x in r.args[1]}
            nm = f"{what}-{p.args[0]}"
            z = B[i]
            rep.eq("report", nm + "-footprint", N, f["footprint"], fp[p], where, g)
            other = shapes[1 - i]
            locations(rep, N, f["locations"], bodies[p], other, nm, where, g)
            rep.eq("report", nm + "-before", N, f["velocity"], T("tuple", T("arr", *z["v"]), z["w"]), where, g)
            for e in [e for e in c.sets if e.target is bodies[p]]:
                im = [strip(x) for x in c.imposed(e)]
                h = land(g, strip(e.guard))
                rep.eq("report", nm + "-after", N, f["velocity_after"], T("tuple", T("arr", *im[:2]), im[2]), where, h)
                en = lambda v: T("mul", T("div", z["m"], const(2)), dot(v, v))
                rep.eq("report", nm + "-energy", N, f["energy_delta"], T("sub", en(im[:2]), en(z["v"])), where, h)
            if obst is not None:
                rep.eq("report", nm + "-fault", N, f["at_fault"], TRUE, where, g)
        for p in env:
            r = items.get(p)
            if r is None or r.op != "rec":
                continue
            f = {k2: strip(x) for k2, x in r.args[1]}
            rep.eq("report", f"{what}-Env-fault", N, f["at_fault"], FALSE, where, g)
            rep.eq("report", f"{what}-Env-energy", N, f["energy_delta"], ZERO, where, g)
            still = T("tuple", T("arr", ZERO, ZERO), ZERO)
            for fld in ("velocity", "velocity_after"):
                rep.eq("report", f"{what}-Env-{fld}", N, f[fld], still, where, g)
            sh = shapes[-1]
            bad = [x for h, x in leaves(f["footprint"]) if not is_shape(x, sh)]
            for h, x in leaves(f["footprint"]):
                for y in subterms(x):
                    if y.op == "call" and str(y.args[0]).split(".")[-1] in ("Polygon", "LinearRing"):
                        rep.ob("report", f"{what}-Env-polygon", polygonal(sh, land(g, h), y), f"an obstacle of any shape can be hit, but only a closed line or a line of three points makes a polygon: {show(y)[:100]} if {show(h)[:200]}", where)
            rep.ob("report", f"{what}-Env-footprint", not bad, f"the footprint of the environment is {show(f['footprint'])[:200]}", where)
    rep.count(f"{what} reports returned", k, 1)
    rep.notes += ip.notes


def locations(rep, N, t, m, other, nm, where, g):
    """pieces of the body's own mesh that the other shape meets, each with its name"""
    mesh = T("mcall", m, "get_mesh", (), ())
    ok, why = False, f"the impact locations are {show(t)[:300]}"
    if t.op == "comp" and t.args[0] == "list":
        it, cond, val = t.args[2], t.args[3], t.args[4]
        src = it
        while src.op == "fn" and src.args[0] in ("items", "list", "tuple") and len(src.args) == 2:
            src = src.args[1]
        if src.op == "mcall" and src.args[1] == "items":
            src = src.args[0]
        e = T("elem", it, t.args[1])
        if src is mesh:
            k = [e, T("item", mesh, e)]
            touch = T("touches", *sorted((other, k[1]), key=show))
            ok = val is T("tuple", *k) and N.equiv(cond, touch) is None
    rep.ob("report", nm + "-locations", ok, why, where)


def polygonal(sh, g, y):
    """the shape turned into a polygon is a line of at least three points whenever that happens"""
    if sh not in subterms(y):
        return True
    cs = conjuncts(g)
    line = any(c.op in ("fn", "call", "isinstance") and "isinstance" in show(c)[:12] and sh in list(subterms(c)) and any(k in show(c) for k in ("LineString", "LinearRing")) and "Multi" not in show(c) for c in cs)
    ring = any("LinearRing" in show(c) and sh in list(subterms(c)) and "isinstance" in show(c)[:12] and "LineString" not in show(c) for c in cs)
    many = any(c.op == "cmp" and c.args[0] == "lt" and isconst(c.args[1]) and c.args[1].args[0] >= 2 and sh in list(subterms(c.args[2])) and "len" in show(c.args[2]) for c in cs) or \
        any(c.op == "not" and c.args[0].op == "cmp" and c.args[0].args[0] == "lt" and isconst(c.args[0].args[2]) and c.args[0].args[2].args[0] >= 3 and sh in list(subterms(c.args[0].args[1])) for c in cs)
    return ring or line and many


def is_shape(x, sh):
    return sh in list(subterms(x))


def root(t):
    while t is not None and t.op in ("attr", "item") and t.op != "ref":
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "models":
            return t
        t = t.args[0]
    return t


def fresh(ip, e):
    t = e.target
    while t is not None and t.op in ("attr", "item"):
        t = t.args[0]
    return t is not None and t.op == "ref"


def short(t):
    return show(t, 0, 5)[:60]
