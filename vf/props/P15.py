"""The position and heading components of every model's symbolic state derivative against its symbolic velocity reading."""
from ..modelx import *
from ..norm import Norm
from .P14 import rotx, roty


def clip(x, lo, hi):
    return ite(T("cmp", "lt", x, lo), lo, ite(T("cmp", "lt", hi, x), hi, x))


def lim(p, name):
    a = T("attr", p, name)
    return T("item", a, ZERO), T("item", a, ONE)


def check(rep):
    ix = rep.ix
    rep.rule("position", "the position moves with the reported global velocity")
    rep.rule("heading", "the heading turns with the reported angular velocity")
    rep.rule("wheels", "the rates of a differential drive follow from its wheels")
    rep.rule("slow", "below walking pace the dynamic vehicle moves like the kinematic one")
    qs = concrete_models(ix)
    rep.count("models", len(qs), len(MODELS))
    for q in qs:
        m = MX(ix, q)
        name, w = m.name, where(ix, q, "dynamics")
        u, d, ra = dynamics(m)
        old = stale(m)
        rep.ob("position", f"{name}-state", not [k for k, _ in old if k in ("x", "y", "psi")], f"the rates of the pose depend on {[(k, show(t)) for k, t in old][:2]}, not on the state given", w)
        N = Norm()
        if name == "DiffDriveModel":
            lo, hi = lim(m.prop("model_params"), "omega_limits")
            N = Norm(assume=[T("cmp", "lt", lo, hi)])
            l, r = (clip(T("attr", u, k), lo, hi) for k in ("omega_l", "omega_r"))
            rad, base = (T("attr", m.prop("model_geometry"), k) for k in ("wheelradius", "wheelbase"))
            v = T("div", T("mul", rad, T("add", l, r)), const(2))
            rep.eq("wheels", "x", N, d["x"], T("mul", v, T("fn", "cos", m.x("psi"))), w)
            rep.eq("wheels", "y", N, d["y"], T("mul", v, T("fn", "sin", m.x("psi"))), w)
            rep.eq("wheels", "psi", N, d["psi"], T("div", T("mul", rad, T("sub", r, l)), base), w)
            rep.funcs |= m.ip.visited
            continue
        g, _ = velocity(m, False)
        when = TRUE
        if name == "VehicleModelDyn":
            slow = T("cmp", "lt", m.x("vx"), const(0.1))
            when = lnot(slow)
            geo = m.prop("model_geometry")
            spin = T("div", T("mul", m.x("vx"), T("fn", "tan", m.x("delta"))), T("add", T("attr", geo, "lf"), T("attr", geo, "lr")))
            b = (m.x("vx"), T("mul", spin, T("attr", geo, "lr")))
            c, s = T("fn", "cos", m.x("psi")), T("fn", "sin", m.x("psi"))
            rep.eq("slow", "x", N, d["x"], rotx(b, c, s), w, slow)
            rep.eq("slow", "y", N, d["y"], roty(b, c, s), w, slow)
            rep.eq("slow", "psi", N, d["psi"], spin, w, slow)
        rep.eq("position", f"{name}-x", N, d["x"], g[0], w, when)
        rep.eq("position", f"{name}-y", N, d["y"], g[1], w, when)
        if name != "PedestrianModel":
            rep.eq("heading", name, N, d["psi"], g[2], w, when)
        rep.funcs |= m.ip.visited
        rep.notes += m.ip.notes
