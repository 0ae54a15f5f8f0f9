"""Symbolic composition of set_velocity and get_velocity of every model, compared as exact trigonometric polynomials."""
from ..modelx import *
from ..norm import Norm

NO_VELOCITY = ("DiffDriveModel",)    # its velocity is that of its wheels, which it does not store (the setter refuses)


def check(rep):
    ix = rep.ix
    rep.rule("read-back", "what is set in a frame is read back in that frame")
    rep.rule("frames", "the global reading is the body reading turned by the heading")
    rep.rule("frame-only", "setting a velocity changes no other state component and nothing else of the model")
    rep.rule("current", "the velocity read is that of the current state, whatever was read before")
    rep.rule("accepts", "velocities can be set and read in every state")
    qs = concrete_models(ix)
    rep.count("models", len(qs), len(MODELS))
    n = 0
    for q in qs:
        m = MX(ix, q)
        name = m.name
        if name in NO_VELOCITY:
            continue
        n += 1
        N = Norm()
        fs = m.fields()
        full = {"vx", "vy", "dpsi"} <= set(fs)
        wset, wget = where(ix, q, "set_velocity"), where(ix, q, "get_velocity")
        psi = m.x("psi")
        c, s = T("fn", "cos", psi), T("fn", "sin", psi)
        b, r1 = velocity(m, True)
        g, r2 = velocity(m, False)
        rep.ob("accepts", f"{name}.get_velocity", not r1 and not r2, "raises", wget)
        rep.eq("frames", f"{name}-x", N, g[0], rotx(b, c, s), wget)
        rep.eq("frames", f"{name}-y", N, g[1], roty(b, c, s), wget)
        rep.eq("frames", f"{name}-spin", N, g[2], b[2], wget)
        for meth, a, b_, _ in m.later(("get_velocity", (TRUE,)), ("get_velocity", (FALSE,))):
            rep.ob("current", f"{name}.{meth}", up_to_date(b_, a, m.state_t), f"after the state is replaced, the velocity read still depends on the earlier one: {show(b_, 0, 6)[:300]}", wget)
        V = (var("vx_new"), var("vy_new"), var("omega_new"))
        for body in (True, False):
            fr = "body" if body else "global"
            v, st, ef, ra = m.run("set_velocity", T("arr", V[0], V[1]), V[2], TRUE if body else FALSE)
            rep.ob("accepts", f"{name}.set_velocity-{fr}", not ra and st.pc is TRUE, f"returns normally only if {short(st.pc)}", wset)
            own = {"vx", "vy", "dpsi"} if full else {"vx"}
            for k in fs:
                if k not in own:
                    rep.eq("frame-only", f"{name}-{fr}-{k}", N, m.field_after(st, k), m.x(k), wset)
            s0 = m.ip.hget(st, m.ref, "_state")
            touched = sorted({e.name for e in ef if e.kind == "store" and (e.target is m.ref and e.name != "_state" or e.target is s0 and e.name not in own)})
            rep.ob("frame-only", f"{name}-{fr}-rest", not touched, f"also writes {touched}", wset)
            bad = [e for e in ef if e.kind in ("store", "setitem", "mutate") and e.target is not m.ref and e.target is not s0 and e.target is not m.state_t]
            rep.ob("frame-only", f"{name}-{fr}-other", not bad, f"also changes {bad[:1]!r}"[:200], wset)
            back, _ = velocity(m, body, st)
            if full:
                for k, x, want in zip(("x", "y", "spin"), back, V):
                    rep.eq("read-back", f"{name}-{fr}-{k}", N, x, want, wset)
            else:
                lon = V[0] if body else T("add", T("mul", c, V[0]), T("mul", s, V[1]))
                rep.eq("read-back", f"{name}-{fr}-longitudinal", N, velocity(m, True, st)[0][0], lon, wset)
        rep.funcs |= m.ip.visited
        rep.notes += m.ip.notes
    rep.count("models with a velocity", n, 7)


def rotx(b, c, s):
    return T("sub", T("mul", c, b[0]), T("mul", s, b[1]))


def roty(b, c, s):
    return T("add", T("mul", s, b[0]), T("mul", c, b[1]))


def short(t):
    return show(t, 0, 6)[:200]
