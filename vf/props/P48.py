"""Every accelerated model's symbolic state derivative against Newton's laws for the forces its own drawing and parameters state, as exact algebra."""
from ..absint import Interp, State
from ..modelx import *
from ..norm import Norm
from .P14 import rotx, roty
from .P15 import lim
from .P16 import le, lt

ASSUMES = ["masses, inertias, wheelbase and axle loads are non-zero", "rockets: the thrusters' small distance from the longitudinal axis exerts no moment"]
PI = T("fn", "pi")

mul = lambda *a: a[0] if len(a) == 1 else T("mul", a[0], mul(*a[1:]))
add = lambda *a: a[0] if len(a) == 1 else T("add", a[0], add(*a[1:]))
sub = lambda a, b: T("sub", a, b)
div = lambda a, b: T("div", a, b)
neg = lambda a: T("neg", a)
fn = lambda n, *a: T("fn", n, *a)


def check(rep):
    ix = rep.ix
    rep.rule("force", "the acceleration of the centre of mass is the sum of the forces over the mass")
    rep.rule("moment", "the angular acceleration is the moment of these forces over the inertia")
    rep.rule("fuel", "fuel is burnt in proportion to the thrust delivered")
    rep.rule("nozzle", "thrust acts against the direction in which the flame leaves the drawn nozzle")
    rep.rule("tyre", "the lateral force of a tyre follows the magic formula")
    rep.rule("friction", "a body that has collided is slowed down in proportion to its speed, any other is not")
    for q in concrete_models(ix):
        m = MX(ix, q)
        if m.name in ("RocketModel", "SpaceshipModel", "SpacecraftModel"):
            thrusters(rep, m)
        elif m.name == "VehicleModelDyn":
            tyres(rep, q)
        if m.name in ("VehicleModelDyn", "PedestrianModel"):
            friction(rep, m)
    magic(rep)


def at(m, geo, name, *args):
    """value of a geometry's attribute, called if arguments are given"""
    st = m.st.fork()
    v = m.ip.getattr(geo, name, st)
    if args:
        v = m.ip.call(v, args, (), st, None)
    return m.ip.freeze(v, st)


def poses(t):
    """(x, y, cos, sin) of each pose in a list"""
    from ..calls import se2mat
    out = []
    for p in (t.args if t.op in ("list", "tuple") else ()):
        a = se2mat(p) if p.op == "fn" and p.args[0] == "SE2" else p
        if a.op != "arr" or len(a.args) != 3:
            return None
        r = a.args
        out.append((r[0].args[2], r[1].args[2], r[0].args[0], r[1].args[0]))
    return out


def thrusters(rep, m):
    ix, name, w = rep.ix, m.name, where(rep.ix, m.q, "dynamics")
    u, d, ra = dynamics(m)
    x, P, geo = m.x, m.prop("model_params"), m.prop("model_geometry")
    a = lambda k: T("attr", u, k)
    g = lambda k: T("attr", geo, k)
    rocket, ship = name == "RocketModel", name == "SpaceshipModel"
    cmds = [a("F_left"), a("F_right")] if rocket else [a("thrust")] if ship else [a("acc_left"), a("acc_right")]
    lo, hi = lim(P, "F_limits" if rocket else "thrust_limits" if ship else "acc_limits")
    assume = [lt(lo, hi)] + [lt(lo, c) for c in cmds] + [lt(c, hi) for c in cmds]
    mass = T("attr", P, "m_v")
    if rocket or ship:
        assume.append(lt(mass, x("m")))
        M = x("m")
        F = cmds
    else:
        dlo, dhi = lim(P, "dpsi_limits")
        assume += [lt(dlo, dhi), lt(dlo, x("dpsi")), lt(x("dpsi"), dhi)]
        M = g("m")
        F = [mul(M, c) for c in cmds]
    N = Norm(assume=assume)
    wg = f"{ix.classes[m.ip.typeof(geo).name].mod.path}:{ix.classes[m.ip.typeof(geo).name].node.lineno} {m.ip.typeof(geo).name}"
    ang = (x("phi" if rocket else "delta"),) if rocket or ship else ()
    ps = poses(at(m, geo, "thrusters_position", *ang))
    n = len(F)
    if not rep.ob("nozzle", f"{name}, number", ps is not None and len(ps) == n and at(m, geo, "n_thrusters") is const(n), f"{n} thrusts but nozzles at {show(at(m, geo, 'thrusters_position', *ang))[:150]}", wg):
        return
    if not (rocket or ship):
        # the list of the spacecraft's thrusters is in the order right, left; both point backwards and push forwards
        ps = [(px, py, neg(c), neg(s)) for px, py, c, s in ps[::-1]]
    fx, fy, mo = ZERO, ZERO, ZERO
    for f, (px, py, c, s) in zip(F, ps):
        f1, f2 = neg(mul(f, c)), neg(mul(f, s))
        fx, fy = add(fx, f1), add(fy, f2)
        arm = ZERO if rocket else py
        mo = add(mo, sub(mul(px, f2), mul(arm, f1)))
    c, s = fn("cos", x("psi")), fn("sin", x("psi"))
    if rocket:
        got = (d["vx"], d["vy"])
        want = (rotx((fx, fy), c, s), roty((fx, fy), c, s))
    else:
        # velocities in the body frame: the frame turns with the body
        got = (sub(d["vx"], mul(x("dpsi"), x("vy"))), add(d["vy"], mul(x("dpsi"), x("vx"))))
        want = (fx, fy)
    for k, p, q in zip("xy", got, want):
        rep.eq("force", f"{name}-{k}", N, mul(M, p), q, w)
    rep.eq("moment", name, N, mul(g("Iz"), d["dpsi"]), mo, w)
    # commands beyond the limits count as the limit
    rest = [f for f in assume if not contains(f, lambda t: t is cmds[0])]
    for tag, cond, lim1 in (("above", lt(hi, cmds[0]), hi), ("below", lt(cmds[0], lo), lo)):
        S = Norm(assume=rest + [cond])
        for k, p, q in zip("xy", got, want):
            rep.eq("force", f"{name}-{k}, {tag} the limit", S, mul(M, p), subst(q, {cmds[0]: lim1}), w)
        rep.eq("moment", f"{name}, {tag} the limit", S, mul(g("Iz"), d["dpsi"]), subst(mo, {cmds[0]: lim1}), w)
        if rocket or ship:
            rep.eq("fuel", f"{name}, {tag} the limit", S, d["m"], subst(neg(mul(T("attr", P, "C_T"), add(*F))), {cmds[0]: lim1}), w)
    if rocket or ship:
        tot = add(*F)
        rep.eq("fuel", name, N, d["m"], neg(mul(T("attr", P, "C_T"), tot)), w)
        E = Norm(assume=[lt(lo, hi), le(x("m"), mass)])
        rep.eq("fuel", f"{name}, empty", E, d["m"], ZERO, w)
        # flames leave the nozzles, in proportion to the thrust
        fp = poses(at(m, geo, "flame_position", *ang))
        N0 = Norm()
        for i, (p, q) in enumerate(zip(ps, fp or ())):
            for k, z, v in zip(("x", "y", "cos", "sin"), q, p):
                rep.eq("nozzle", f"{name}, flame {i}, {k}", N0, z, v, wg)
        rep.ob("nozzle", f"{name}, flames", fp is not None and len(fp) == n, "flames and nozzles differ in number", wg)
        outlines(rep, m, geo, name, ang[0], n, wg)
    rep.funcs |= m.ip.visited
    rep.notes += m.ip.notes


def pts(t):
    """list of coordinate pairs"""
    if t.op not in ("list", "tuple", "arr"):
        return None
    out = [tuple(p.args[:2]) for p in t.args if p.op in ("list", "tuple", "arr") and len(p.args) >= 2]
    return out if len(out) == len(t.args) else None


def outlines(rep, m, geo, name, ang, n, w):
    """the flame of a thruster starts where the nozzle ends, is as wide, and grows in proportion to the thrust"""
    Fs = [var(f"F{i}") for i in range(n)]
    st = m.st.fork()
    cmd = m.ip.mk_list(tuple(Fs), st) if n > 1 else Fs[0]
    f = m.ip.call(m.ip.getattr(geo, "flames_outline_in_body_frame", st), (ang, cmd), (), st, None)
    f = m.ip.freeze(f, st)
    t = at(m, geo, "thrusters_outline_in_body_frame", ang)
    ps = poses(at(m, geo, "thrusters_position", ang))
    wh, lh, Fm = (T("attr", geo, k) for k in ("w_t_half", "l_t_half", "F_max"))
    N = Norm(assume=[lt(ZERO, wh), lt(ZERO, lh), lt(ZERO, Fm)])
    for kind, v in (("nozzle", t), ("flame", f)):
        if not rep.ob("nozzle", f"{name}, {kind} outlines", v.op in ("list", "tuple") and len(v.args) == n, f"{kind} outlines are {show(v)[:200]}", w):
            continue
        for i, (o, (px, py, c, s)) in enumerate(zip(v.args, ps)):
            got = pts(o)
            tip = add(lh, div(Fs[i], mul(const(2), Fm)))
            local = [(ZERO, neg(wh)), (ZERO, wh), (lh, wh), (lh, neg(wh))] if kind == "nozzle" else [(lh, neg(wh)), (tip, ZERO), (lh, wh)]
            want = [(add(px, sub(mul(c, a), mul(s, b))), add(py, add(mul(s, a), mul(c, b)))) for a, b in local]
            rep.ob("nozzle", f"{name}, {kind} {i}", got is not None and ring(N, got, want), f"the {kind} is drawn through {show(o)[:300]}", w)


def ring(N, got, want):
    """same closed outline, whatever the corner started from and the direction"""
    same = lambda a, b: all(N.diff(x, y) is None for x, y in zip(a, b))
    if len(got) > 1 and same(got[0], got[-1]):
        got = got[:-1]
    n = len(want)
    if len(got) != n:
        return False
    for k in range(n):
        for sgn in (1, -1):
            if all(same(got[i], want[(k + sgn * i) % n]) for i in range(n)):
                return True
    return False


def tyres(rep, q):
    ix = rep.ix
    pac = ix.cls("Pacejka").qual

    def evaluate(ip, st, args, kw, node):
        return fn("tyre", ip.freeze(args[0], st), ip.freeze((args[1:] + tuple(v for _, v in kw))[0], st))

    m = MX(ix, q, overrides={pac + ".evaluate": evaluate})
    w = where(ix, q, "dynamics")
    u, d, ra = dynamics(m)
    # the friction after a collision is the business of the rule "friction"
    d = {k: subst(v, {var("has_collided"): FALSE}) for k, v in d.items()}
    x, P, geo = m.x, m.prop("model_params"), m.prop("model_geometry")
    g = lambda k: T("attr", geo, k)
    acc = T("attr", u, "acc")
    lo, hi = lim(P, "acc_limits")
    vlo, vhi = lim(P, "vx_limits")
    ip = m.ip
    const_of = lambda n: ip.global_value(ix.modules[next(k for k in ix.modules if k.endswith("sim.models.utils"))], n)
    G, rho = const_of("G"), const_of("rho")
    vx, vy, r, de = x("vx"), x("vy"), x("dpsi"), x("delta")
    lf, lr, M = g("lf"), g("lr"), g("m")
    L = add(lf, lr)
    # loads of the axles, downwards negative
    L1 = neg(div(mul(M, sub(mul(G, lr), mul(g("h_cog"), acc))), L))
    L2 = neg(div(mul(M, add(mul(G, lf), mul(g("h_cog"), acc))), L))
    drive = mul(M, acc)
    brake = le(drive, ZERO)
    D1 = ite(brake, mul(drive, const(0.6)), mul(drive, const(0.5)))
    D2 = ite(brake, mul(drive, const(0.4)), mul(drive, const(0.5)))
    c, s = fn("cos", de), fn("sin", de)
    t1, t2 = var("pacejka_front"), var("pacejka_rear")
    v1y = add(vy, mul(lf, r))
    u1 = (add(mul(c, vx), mul(s, v1y)), sub(mul(c, v1y), mul(s, vx)))
    y1 = mul(fn("tyre", t1, fn("atan", div(u1[1], u1[0]))), L1)
    y2 = mul(fn("tyre", t2, fn("atan", div(sub(vy, mul(lr, r)), vx))), L2)
    sat = lambda y, load, t: fn("sqrt", sub(ONE, T("pow", div(y, mul(load, T("attr", t, "D"))), const(2))))
    X1 = mul(add(D1, mul(g("c_rr_f"), L1)), sat(y1, L1, t1))
    X2 = mul(add(D2, mul(g("c_rr_r"), L2)), sat(y2, L2, t2))
    F1 = (sub(mul(c, X1), mul(s, y1)), add(mul(s, X1), mul(c, y1)))
    drag = neg(mul(const(0.5), rho, g("a_drag"), g("c_drag"), vx, vx))
    name = "VehicleModelDyn"
    fx = add(div(add(F1[0], X2, drag), M), mul(r, vy))
    fy = add(div(add(F1[1], y2), M), neg(mul(r, vx)))
    mo = div(sub(mul(lf, F1[1]), mul(lr, y2)), g("Iz"))
    base = [lt(lo, ZERO), lt(ZERO, hi), lt(vlo, vhi), lnot(lt(vx, const(0.1))), lt(ZERO, M), lt(ZERO, lf), lt(ZERO, lr)]
    inside = [lt(lo, acc), lt(acc, hi), lt(vlo, vx), lt(vx, vhi)]
    for tag, extra, a in (("", inside, acc), (", above the limit", [lt(hi, acc), lt(vlo, vx), lt(vx, vhi)], hi), (", below the limit", [lt(acc, lo), lt(vlo, vx), lt(vx, vhi)], lo),
                          (", at top speed", [lt(ZERO, acc), lt(acc, hi), lt(vhi, vx)], ZERO)):
        N = Norm(assume=base + extra)
        for rule, k, p, q in (("force", f"{name}-x", d["vx"], fx), ("force", f"{name}-y", d["vy"], fy), ("moment", name, d["dpsi"], mo)):
            rep.eq(rule, k + tag, N, p, subst(q, {acc: a}), w)
    rep.funcs |= m.ip.visited
    rep.notes += m.ip.notes


def magic(rep):
    ix = rep.ix
    for cls in ("Pacejka", "Pacejka4p"):
        q = ix.cls(cls).qual
        ip, st = Interp(ix), State()
        v, sl = var("tyre"), var("slip")
        ip.types[v] = Ty(q)
        ip.exact.add(v)
        m = ix.find_method(q, "evaluate")
        got = ip.freeze(ip.call_method(v, m, (sl,), (), st, None), st)
        B, C, D = (T("attr", v, k) for k in "BCD")
        b = mul(B, sl)
        arg = b if cls == "Pacejka" else sub(b, mul(T("attr", v, "E"), sub(b, fn("atan", b))))
        rep.eq("tyre", cls, Norm(), got, mul(D, fn("sin", mul(C, fn("atan", arg)))), f"{m[0].mod.path}:{m[1].lineno} {m[0].qual}.evaluate")
        rep.funcs |= ip.visited


def friction(rep, m):
    w = where(rep.ix, m.q, "dynamics")
    u, d, ra = dynamics(m)
    hc = var("has_collided")
    N = Norm()
    for k in ("vx", "vy", "dpsi"):
        extra = sub(subst(d[k], {hc: TRUE}), subst(d[k], {hc: FALSE}))
        for mt in (const("car"), const("bicycle")) if m.name == "VehicleModelDyn" else (None,):
            e = extra
            if mt is not None:
                e = subst(e, {t: mt for t in subterms(e) if t.op == "attr" and t.args[1] in ("vehicle_type", "model_type")})
            mu = rate(N, subst(e, {m.x(k): ONE}))
            tag = f"{m.name}-{k}" + (f", {mt.args[0]}" if mt is not None else "")
            if rep.ob("friction", f"{tag}, slows", mu is not None and mu < 0, f"a collided body at unit speed is accelerated by {show(subst(e, {m.x(k): ONE}))[:200]}", w):
                rep.eq("friction", tag, N, e, mul(const(mu), m.x(k)), w)
    rep.funcs |= m.ip.visited


def rate(N, t):
    """the number a term is equal to in every case"""
    vals = set()
    for cx, r in N.each(lambda cx: N.num(t, cx)):
        if r is None or any(k for k in r.n) or any(k for k in r.d):
            return None
        vals.add(sum(r.n.values()) / sum(r.d.values()))
    return vals.pop() if len(vals) == 1 else None
