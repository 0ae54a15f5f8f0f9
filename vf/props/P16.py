"""Case analysis of every model's symbolic state derivative over all positions of command and state relative to the limits."""
from ..modelx import *
from ..norm import Norm
from .P15 import lim, clip

ASSUMES = ["the limits passed the validation of the parameter types (minimum below maximum, positive maxima), which P20 decides"]


def lt(a, b):
    return T("cmp", "lt", a, b)


def le(a, b):
    return lnot(lt(b, a))


def neg(x):
    return T("neg", x)


def blocked(x, slo, shi, r):
    """the command r would push the state x, at or beyond a limit, further out"""
    return lor(land(le(x, slo), lt(r, ZERO)), land(le(shi, x), lt(ZERO, r)))


def check(rep):
    ix = rep.ix
    rep.rule("within", "whatever is commanded, the driven rate stays within the limits")
    rep.rule("faithful", "a command within its limits, away from state limits, acts unchanged")
    rep.rule("state-limit", "at or beyond a state limit the command cannot push further out")
    rep.rule("recover", "at or beyond a state limit a command within limits can bring the state back")
    rep.rule("saturated", "the derivative depends on a command only through its value within the limits")
    rep.rule("no-fuel", "without fuel there is no thrust")
    rep.rule("total", "the derivative is defined for every command")
    qs = concrete_models(ix)
    rep.count("models", len(qs), len(MODELS))
    nch = 0
    for q in qs:
        m = MX(ix, q)
        name, w = m.name, where(ix, q, "dynamics")
        u, d, ra = dynamics(m)
        old = stale(m)
        rep.ob("state-limit", f"{name}-own-state", not old, f"limits act on {[(k, show(t)) for k, t in old][:2]}, not on the state given", w)
        a = lambda k: T("attr", u, k)
        x = m.x
        P = m.prop("model_params")
        G = m.prop("model_geometry")
        p = lambda k: T("attr", P, k)
        L = lambda k: lim(P, k)
        ch = []      # name, rate, command, lo, hi, state, slo, shi, when
        sat = {}     # command field -> value within limits
        assume = []
        nocol = lnot(var("has_collided"))

        def lims(k):
            lo, hi = L(k)
            assume.append(lt(lo, hi))
            return lo, hi
        if name in ("VehicleModel", "VehicleModelDyn"):
            dm, dd = p("delta_max"), p("ddelta_max")
            assume += [lt(ZERO, dm), lt(ZERO, dd)]
            al, vl = lims("acc_limits"), lims("vx_limits")
            ch.append(("steering", d["delta"], a("ddelta"), neg(dd), dd, x("delta"), neg(dm), dm, TRUE))
            slow = TRUE if name == "VehicleModel" else land(nocol, lt(x("vx"), const(0.1)))
            ch.append(("acceleration", d["vx"], a("acc"), *al, x("vx"), *vl, slow))
            ac = clip(a("acc"), *al)
            sat["acc"] = ite(blocked(x("vx"), *vl, ac), ZERO, ac)
            sat["ddelta"] = ite(blocked(x("delta"), neg(dm), dm, a("ddelta")), ZERO, clip(a("ddelta"), neg(dd), dd))
        elif name == "PedestrianModel":
            al, vl = lims("acc_limits"), lims("vx_limits")
            assume.append(lt(ZERO, p("dtheta_max")))
            tl = neg(p("dtheta_max")), p("dtheta_max")
            ch.append(("acceleration", d["vx"], a("acc"), *al, x("vx"), *vl, nocol))
            ch.append(("turning", d["psi"], a("dpsi"), *tl, None, None, None, TRUE))
            ac = clip(a("acc"), *al)
            sat["acc"] = ite(blocked(x("vx"), *vl, ac), ZERO, ac)
            sat["dpsi"] = clip(a("dpsi"), *tl)
        elif name == "DynObstacleModel":
            al, vl, wl, dl = lims("acc_limits"), lims("vx_limits"), lims("dpsi_limits"), lims("ddpsi_limits")
            cx = T("add", a("acc_x"), T("mul", x("dpsi"), x("vy")))
            cy = T("sub", a("acc_y"), T("mul", x("dpsi"), x("vx")))
            ch.append(("longitudinal", d["vx"], cx, *al, x("vx"), *vl, TRUE))
            ch.append(("lateral", d["vy"], cy, *al, x("vy"), *vl, TRUE))
            ch.append(("spin", d["dpsi"], a("acc_psi"), *dl, x("dpsi"), *wl, TRUE))
        elif name == "DiffDriveModel":
            wl = lims("omega_limits")
            sat["omega_l"], sat["omega_r"] = clip(a("omega_l"), *wl), clip(a("omega_r"), *wl)
            rad, base = T("attr", G, "wheelradius"), T("attr", G, "wheelbase")
            # wheel speeds recovered from the rates
            c, s = T("fn", "cos", x("psi")), T("fn", "sin", x("psi"))
            v = T("add", T("mul", d["x"], c), T("mul", d["y"], s))
            half = T("div", T("mul", d["psi"], base), const(2))
            for k, e in (("omega_l", T("sub", v, half)), ("omega_r", T("add", v, half))):
                r = T("div", e, rad)
                ch.append((k, r, a(k), *wl, None, None, None, TRUE))
        elif name == "SpacecraftModel":
            al, wl = lims("acc_limits"), lims("dpsi_limits")
            sat["acc_left"], sat["acc_right"] = clip(a("acc_left"), *al), clip(a("acc_right"), *al)
            tot = T("sub", d["vx"], T("mul", x("vy"), x("dpsi")))
            two = lambda z: T("mul", const(2), z)
            ch.append(("thrust", tot, T("add", a("acc_left"), a("acc_right")), two(al[0]), two(al[1]), None, None, None,
                       land(le(al[0], a("acc_left")), le(a("acc_left"), al[1]), le(al[0], a("acc_right")), le(a("acc_right"), al[1]))))
            rep.holds("within", f"{name}-thrust-any", Norm(assume=[lt(*al)]), land(le(two(al[0]), tot), le(tot, two(al[1]))), w)
            k = T("div", T("mul", T("attr", G, "w_half"), T("attr", G, "m")), T("attr", G, "Iz"))
            assume.append(lt(ZERO, k))
            dif = T("mul", k, T("sub", sat["acc_right"], sat["acc_left"]))
            rep.eq("state-limit", f"{name}-spin", Norm(assume=assume), d["dpsi"], ite(blocked(x("dpsi"), *wl, dif), ZERO, dif), w)
            nch += 1
        elif name == "RocketModel":
            fl, al, rl = lims("F_limits"), lims("delta_limits"), lims("ddelta_limits")
            assume.append(lt(rl[0], ZERO))
            assume.append(lt(ZERO, rl[1]))
            ch.append(("nozzle", d["phi"], a("dphi"), *rl, x("phi"), *al, TRUE))
            fuel = lt(p("m_v"), x("m"))
            sat["F_left"], sat["F_right"] = (ite(fuel, clip(a(k), *fl), ZERO) for k in ("F_left", "F_right"))
            tot = T("neg", T("mul", p("C_T"), T("add", sat["F_left"], sat["F_right"])))
            N = Norm(assume=assume)
            rep.eq("faithful", f"{name}-thrust-total", N, d["m"], tot, w)
            turn = T("mul", T("div", T("mul", T("attr", G, "l_m"), T("fn", "cos", x("phi"))), T("attr", G, "Iz")), T("sub", sat["F_right"], sat["F_left"]))
            rep.eq("faithful", f"{name}-thrust-difference", N, d["dpsi"], turn, w)
            for k in ("vx", "vy", "dpsi", "m"):
                rep.eq("no-fuel", f"{name}-{k}", N, d[k], ZERO, w, lnot(fuel))
            nch += 2
            for k in ("F_left", "F_right"):
                sat[k] = clip(a(k), *fl)
        elif name == "SpaceshipModel":
            fl, al, rl = lims("thrust_limits"), lims("delta_limits"), lims("ddelta_limits")
            assume.append(lt(rl[0], ZERO))
            assume.append(lt(ZERO, rl[1]))
            ch.append(("nozzle", d["delta"], a("ddelta"), *rl, x("delta"), *al, TRUE))
            fuel = lt(p("m_v"), x("m"))
            sat["thrust"] = clip(a("thrust"), *fl)
            N = Norm(assume=assume)
            rep.eq("faithful", f"{name}-thrust", N, d["m"], T("neg", T("mul", p("C_T"), ite(fuel, sat["thrust"], ZERO))), w)
            free = {"vx": T("mul", x("dpsi"), x("vy")), "vy": T("neg", T("mul", x("dpsi"), x("vx"))), "dpsi": ZERO, "m": ZERO}
            for k in free:
                rep.eq("no-fuel", f"{name}-{k}", N, d[k], free[k], w, lnot(fuel))
            nch += 1
        else:
            rep.notes.append(f"{name}: no table of its limits, not examined")
            continue
        N = Norm(assume=assume)
        for nm, r, c, lo, hi, s, slo, shi, when in ch:
            nch += 1
            inside = land(le(lo, c), le(c, hi))
            zero_ok = land(le(lo, ZERO), le(ZERO, hi))
            if s is None:
                rep.holds("within", f"{name}-{nm}", N, land(le(lo, r), le(r, hi)), w, when, f"{lo_hi(lo, hi)}")
                rep.eq("faithful", f"{name}-{nm}", N, r, c, w, land(when, inside))
                continue
            # a blocked rate is zero, which only lies between the limits if they allow standing still
            rep.holds("within", f"{name}-{nm}", N, lor(land(le(lo, r), le(r, hi)), T("cmp", "eq", r, ZERO)), w, when, lo_hi(lo, hi))
            rep.eq("faithful", f"{name}-{nm}", N, r, c, w, land(when, inside, lt(slo, s), lt(s, shi)))
            rep.holds("state-limit", f"{name}-{nm}-low", N, le(ZERO, r), w, land(when, le(s, slo)), "the rate at the lower limit is not negative")
            rep.holds("state-limit", f"{name}-{nm}-high", N, le(r, ZERO), w, land(when, le(shi, s)), "the rate at the upper limit is not positive")
            rep.eq("recover", f"{name}-{nm}-low", N, r, c, w, land(when, inside, le(s, slo), lt(s, shi), lt(ZERO, c)))
            rep.eq("recover", f"{name}-{nm}-high", N, r, c, w, land(when, inside, le(shi, s), lt(slo, s), lt(c, ZERO)))
        if sat:
            mp = {a(k): v for k, v in sat.items()}
            for k in m.fields():
                rep.eq("saturated", f"{name}-{k}", N, d[k], subst(d[k], mp), w)
        rep.ob("total", name, not ra, f"raises {[show(o.value)[:80] for o in ra][:2]}", w)
        rep.funcs |= m.ip.visited
        rep.notes += m.ip.notes
    rep.count("driven rates", nch, 18)


def lo_hi(lo, hi):
    return f"rate within [{show(lo)}, {show(hi)}]"
