"""Substitution of a moved, turned and mirrored frame into every model's symbolic state derivative, compared as exact expressions."""
from ..modelx import *
from ..norm import Norm
from .P14 import rotx, roty, velocity
from .P15 import lim
from .P16 import lt, le, neg

ASSUMES = ["mirror symmetry is required for parameters whose limits are symmetric where they concern a mirrored quantity"]
WORLD_VEL = ("RocketModel",)
ODD = {"y", "psi", "vy", "dpsi", "delta"}
ODD_CMD = {"VehicleModel": ("ddelta",), "VehicleModelDyn": ("ddelta",), "PedestrianModel": ("dpsi",), "DynObstacleModel": ("acc_y", "acc_psi"), "SpaceshipModel": ("ddelta",)}
SWAP_CMD = {"DiffDriveModel": ("omega_l", "omega_r"), "SpacecraftModel": ("acc_left", "acc_right"), "RocketModel": ("F_left", "F_right")}
SYM = {"DynObstacleModel": ("vx_limits", "acc_limits", "dpsi_limits", "ddpsi_limits"), "SpaceshipModel": ("delta_limits", "ddelta_limits"), "SpacecraftModel": ("dpsi_limits",)}
THRUST = {"SpacecraftModel": ("acc_limits", ("acc_left", "acc_right")), "SpaceshipModel": ("thrust_limits", ("thrust",)), "RocketModel": ("F_limits", ("F_left", "F_right"))}


def check(rep):
    ix = rep.ix
    rep.rule("translation", "no rate depends on the absolute position")
    rep.rule("rotation", "turning the world turns the world-frame rates and leaves the others unchanged")
    rep.rule("mirror", "mirroring state and command mirrors the rates")
    rep.rule("inertia", "without thrust the world velocity is constant")
    qs = concrete_models(ix)
    rep.count("models", len(qs), len(MODELS))
    for q in qs:
        m = MX(ix, q)
        name, w = m.name, where(ix, q, "dynamics")
        if name not in MODELS:
            rep.notes.append(f"{name}: not examined")
            continue
        u, d, ra = dynamics(m)
        fs = m.fields()
        x = m.x
        P = m.prop("model_params")
        a = lambda k: T("attr", u, k)
        assume = []
        pre = {}
        for k in ("acc_limits", "vx_limits", "dpsi_limits", "ddpsi_limits", "delta_limits", "ddelta_limits", "omega_limits", "F_limits", "thrust_limits"):
            lo, hi = lim(P, k)
            if any(contains(t, lambda z: z is lo) for t in d.values()):
                if k in SYM.get(name, ()):
                    pre[lo] = neg(hi)
                    assume.append(lt(ZERO, hi))
                else:
                    assume.append(lt(lo, hi))
        for k in ("delta_max", "ddelta_max", "dtheta_max"):
            assume.append(lt(ZERO, T("attr", P, k)))
        N = Norm(assume=assume)
        moved = {x("x"): var("x_moved"), x("y"): var("y_moved")}
        for k in fs:
            rep.eq("translation", f"{name}-{k}", N, subst(d[k], moved), d[k], w)
        al = var("alpha")
        c, s = T("fn", "cos", al), T("fn", "sin", al)
        turn = {x("psi"): T("add", x("psi"), al)}
        if name in WORLD_VEL:
            turn[x("vx")] = rotx((x("vx"), x("vy")), c, s)
            turn[x("vy")] = roty((x("vx"), x("vy")), c, s)
        vecs = [("x", "y")] + ([("vx", "vy")] if name in WORLD_VEL else [])
        for k in fs:
            want = d[k]
            for p in vecs:
                if k == p[0]:
                    want = rotx((d[p[0]], d[p[1]]), c, s)
                elif k == p[1]:
                    want = roty((d[p[0]], d[p[1]]), c, s)
            rep.eq("rotation", f"{name}-{k}", N, subst(d[k], turn), want, w)
        mir = {x(k): neg(x(k)) for k in fs if k in ODD}
        for k in ODD_CMD.get(name, ()):
            mir[a(k)] = neg(a(k))
        if name in SWAP_CMD:
            l, r = SWAP_CMD[name]
            mir[a(l)], mir[a(r)] = a(r), a(l)
        for k in fs:
            dk = subst(d[k], pre)
            rep.eq("mirror", f"{name}-{k}", N, subst(dk, mir), neg(dk) if k in ODD else dk, w)
        if name in THRUST:
            lk, cs = THRUST[name]
            lo, hi = lim(P, lk)
            N2 = Norm(assume=assume + [le(lo, ZERO), le(ZERO, hi)])
            zero = {a(k): ZERO for k in cs}
            vx, vy = subst(d["vx"], zero), subst(d["vy"], zero)
            if name in WORLD_VEL:
                rep.eq("inertia", f"{name}-vx", N2, vx, ZERO, w)
                rep.eq("inertia", f"{name}-vy", N2, vy, ZERO, w)
            else:
                rep.eq("inertia", f"{name}-vx", N2, vx, T("mul", x("dpsi"), x("vy")), w)
                rep.eq("inertia", f"{name}-vy", N2, vy, neg(T("mul", x("dpsi"), x("vx"))), w)
        rep.funcs |= m.ip.visited
        rep.notes += m.ip.notes
