"""Symbolic impact of two arbitrary bodies at an arbitrary contact: momentum balance and restitution as polynomial identities."""
from ..collx import *
from ..norm import Norm
from ..absint import Interp, State
from ..poly import R
from ..rule import Only
from . import P14, P40

ASSUMES = ["masses and inertias are non-zero"]


def check(rep):
    ix = rep.ix
    rep.rule("along-normal", "the impulse has no component along the contact surface")
    rep.rule("torque", "each spin changes by the torque of that body's own impulse about its own centre")
    rep.rule("opposite", "the impulses of the two bodies are equal and opposite")
    rep.rule("momentum", "total linear and angular momentum are unchanged")
    rep.rule("restitution", "the normal contact velocity is reversed and scaled by the smaller restitution coefficient")
    N = Norm()
    # ---- two bodies
    c = Coll(ix, "resolve_collision")
    c.run()
    rep.saw(c.res)
    models = T("attr", var("sim_context"), "models")
    ra_, rb_ = T("item", models, var("a")), T("item", models, var("b"))
    sets = {r: [e for e in c.sets if e.target is r] for r in (ra_, rb_)}
    for r in sets:
        rep.count(f"velocities imposed on {show(r.args[1])}", len(sets[r]), 1)
    P = c.p.args
    n = c.n.args
    t = [T("neg", n[1]), n[0]]
    B = {}
    for nm, r in (("a", ra_), ("b", rb_)):
        e = sets[r][-1]
        w = e.where()
        b = c.body(r)
        new = c.imposed(e)
        b["arm"] = vsub(P, b["pos"])
        b["new"], b["dv"], b["dw"], b["where"] = new, vsub(new[:2], b["v"]), T("sub", new[2], b["w"]), w
        b["J"] = [T("mul", b["m"], x) for x in b["dv"]]
        B[nm] = b
        rep.eq("along-normal", f"pair-{nm}", N, dot(b["dv"], t), ZERO, w)
        rep.eq("torque", f"pair-{nm}", N, T("mul", b["Iz"], b["dw"]), cross(b["arm"], b["J"]), w)
    a, b = B["a"], B["b"]
    for k, ax in enumerate("xy"):
        rep.eq("opposite", f"pair-{ax}", N, T("add", a["J"][k], b["J"][k]), ZERO, a["where"])
        rep.eq("momentum", f"pair-{ax}", N, total(lambda z, v, w: T("mul", z["m"], v[k]), (a, b), True), total(lambda z, v, w: T("mul", z["m"], v[k]), (a, b), False), a["where"])
    ang = lambda z, v, w: T("add", T("mul", z["Iz"], w), T("mul", z["m"], cross(z["pos"], v)))
    rep.eq("momentum", "pair-angular", N, total(ang, (a, b), True), total(ang, (a, b), False), a["where"])
    rel = lambda new: dot(vsub(*[at_point(z["new"][:2] if new else z["v"], z["new"][2] if new else z["w"], z["arm"]) for z in (a, b)]), n)
    emin = T("fn", "min", a["e"], b["e"])
    rep.eq("restitution", "pair", N, rel(True), T("neg", T("mul", emin, rel(False))), a["where"])
    rep.ob("along-normal", "pair-contact", len(c.contact_args) == 1, f"the contact geometry is computed {len(c.contact_args)} times", a["where"])
    # ---- against the environment
    c = Coll(ix, "resolve_collision_with_environment")
    c.run()
    rep.saw(c.res)
    r = var("a_model")
    sets = [e for e in c.sets if e.target is r]
    rep.count("velocities imposed by the environment", len(sets), 1)
    e = sets[-1]
    w = e.where()
    n, P = c.n.args, c.p.args
    t = [T("neg", n[1]), n[0]]
    z = c.body(r)
    new = c.imposed(e)
    arm = vsub(P, z["pos"])
    dv = vsub(new[:2], z["v"])
    J = [T("mul", z["m"], x) for x in dv]
    rep.eq("along-normal", "environment", N, dot(dv, t), ZERO, w)
    rep.eq("torque", "environment", N, T("mul", z["Iz"], T("sub", new[2], z["w"])), cross(arm, J), w)
    G = T("attr", var("b_obstacle"), "geometry")
    mu, nu = var("1/m_obstacle"), var("1/Iz_obstacle")
    mp = {T("attr", G, "m"): T("div", ONE, mu), T("attr", G, "Iz"): T("div", ONE, nu)}
    after = dot(at_point(new[:2], new[2], arm), n)
    before = dot(at_point(z["v"], z["w"], arm), n)
    obst = T("neg", T("mul", mu, dot(J, n)))      # the obstacle starts at rest
    resid = T("add", T("sub", after, obst), T("mul", T("fn", "min", z["e"], T("attr", G, "e")), before))
    resid = subst(resid, mp)
    for nm, zero in (("fixed", (mu, nu)), ("movable", (nu,))):
        bad = None
        for cx, v in N.each(lambda cx: at_zero(N.num(resid, cx), zero)):
            if v is None or v and N.elim(R(v), cx):
                bad = cx.log
        rep.ob("restitution", f"environment-{nm}", bad is None, f"the contact velocity is not reversed with the smaller restitution (case {bad})", w)
    rep.notes += c.ip.notes
    obstacle(rep)
    P40.check(Only(rep, unit="the contact normal has length one"))
    P14.check(Only(rep, **{"read-back": "the velocity a model is given is the velocity it then has"}))


def obstacle(rep):
    """what a static obstacle consists of unless told otherwise"""
    ix = rep.ix
    rep.rule("immovable", "a static obstacle has infinite mass and inertia unless told otherwise")
    cases = {"default_static()": lambda ip, st: ip.call(ip.getattr(T("cls", ix.cls("ObstacleGeometry").qual), "default_static", st), (), (), st, None),
             "StaticObstacle(shape)": lambda ip, st: ip.getattr(ip.instantiate(ix.cls("StaticObstacle").qual, (var("shape"),), (), st, None), "geometry", st)}
    for nm, f in cases.items():
        ip, st = Interp(ix), State()
        g = f(ip, st)
        for k in ("m", "Iz"):
            v = ip.freeze(ip.getattr(g, k, st), st)
            rep.ob("immovable", f"{k} of {nm}", isconst(v) and v.args[0] == float("inf"), f"{k} of {nm} is {show(v)[:100]}", f"{ix.cls('ObstacleGeometry').mod.path}:{ix.cls('ObstacleGeometry').node.lineno} {ix.cls('ObstacleGeometry').qual}")
        rep.funcs |= ip.visited


def total(f, bodies, after):
    a, b = bodies
    g = lambda z: f(z, z["new"][:2], z["new"][2]) if after else f(z, z["v"], z["w"])
    return T("add", g(a), g(b))


def at_zero(r, atoms):
    """numerator after letting atoms tend to zero; None if that has no limit"""
    z = lambda p: {m: k for m, k in p.items() if not any(x in atoms for x, _ in m)}
    n, d = z(r.n), z(r.d)
    return n if d else None
