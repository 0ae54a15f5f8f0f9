"""Symbolic run of every model's update with the integrator replaced by an arbitrary outcome; the right-hand side it is given is compared with the model's own dynamics."""
from ..modelx import *
from ..norm import Norm
from .P14 import short

ASSUMES = ["scipy.integrate.solve_ivp integrates the function it is given from y0 over t_span (its accuracy is P37, not claimed)"]
KEEPS = ("DynObstacleModel",)


def zero_command(m, u):
    cls = m.ip.typeof(u).name
    return [f[0] for f in m.ix.dc_fields(cls) if f[0] != "idx"]


def check(rep):
    ix = rep.ix
    rep.rule("span", "the integration covers exactly the time step")
    rep.rule("start", "it starts at the current state with the given command")
    rep.rule("constant", "the command is held constant")
    rep.rule("own", "the rate integrated is the model's own dynamics, with zero command once collided where documented")
    rep.rule("instant", "the rate at each instant is that of the state at that instant (friction after a collision aside)")
    rep.rule("result", "the new state is the final value, component by component")
    rep.rule("failure", "if the integration fails, update raises and the state is unchanged")
    rep.rule("once", "the integration is done exactly once")
    qs = concrete_models(ix)
    rep.count("models", len(qs), len(MODELS))
    for q in qs:
        iv = IVP()
        m = MX(ix, q, overrides={"scipy.integrate.solve_ivp": iv})
        name, w = m.name, where(ix, q, "update")
        u = command_var(m, "update", 1)
        dt = var("dt")
        v, st, ef, ra = m.run("update", u, dt)
        cmds = [f for f in zero_command(m, u)]
        fs = m.fields()
        if not rep.ob("once", name, len(iv.calls) == 1 and iv.calls[0]["n"] and iv.calls[0]["pc"] is TRUE, f"{len(iv.calls)} integrations" + (f" under {short(iv.calls[0]['pc'])}" if iv.calls else ""), w):
            continue
        c = iv.calls[0]
        N = Norm()
        sp = c["t_span"]
        rep.ob("span", f"{name}-shape", sp.op in ("tuple", "list", "arr") and len(sp.args) == 2, f"t_span is {show(sp)}", w)
        if sp.op in ("tuple", "list", "arr") and len(sp.args) == 2:
            rep.eq("span", name, N, T("sub", sp.args[1], sp.args[0]), dt, w)
        ev = c["extra"].get("t_eval", NONE)
        if ev is not NONE:
            # the last value returned is that at the last of these times
            last = ev.args[-1] if ev.op in ("tuple", "list", "arr") and ev.args else ev.args[2] if ev.op == "fn" and ev.args[0] == "linspace" else NONE
            rep.eq("span", f"{name}-last", N, last, sp.args[-1], w)
        rep.ob("span", f"{name}-events", c["extra"].get("events", NONE) is NONE, "an event may end the integration early", w)
        pos, cpos = {}, {}
        ok = True
        for i, y in enumerate(c["y0"].args):
            if y.op == "attr" and y.args[0] is m.state_t and len(y.args) == 2 and y.args[1] in fs:
                ok &= y.args[1] not in pos
                pos[y.args[1]] = i
            elif y.op == "attr" and y.args[0] is u and y.args[1] in cmds:
                ok &= y.args[1] not in cpos
                cpos[y.args[1]] = i
            else:
                ok = False
        rep.ob("start", name, ok and set(pos) == set(fs) and (not cpos or True), f"the initial value is {show(c['y0'], 0, 4)[:300]}", w)
        if not ok or set(pos) != set(fs):
            continue
        rhs = c["rhs"]
        if not rep.ob("own", f"{name}-length", rhs.op in ("arr", "list", "tuple") and len(rhs.args) == c["n"], f"the rate is {show(rhs, 0, 4)[:200]}", w):
            continue
        for k, i in cpos.items():
            rep.eq("constant", f"{name}-{k}", N, rhs.args[i], ZERO, w)
        hold = {c["ys"][i]: T("attr", u, k) for k, i in cpos.items()}
        # the model's dynamics at an arbitrary state with the given command
        s2 = m.st.fork()
        xs = m.ip.instantiate(m.state_cls, (), tuple((k, c["ys"][pos[k]]) for k in fs), s2, None)
        uc = m.ip.instantiate(m.ip.typeof(u).name, (), tuple((k, T("attr", u, k) if k not in NON_NUM else T("attr", u, k)) for k in cmds), s2, None)
        u0 = m.ip.instantiate(m.ip.typeof(u).name, (), tuple((k, ZERO if k not in NON_NUM else T("attr", u, k)) for k in cmds), s2, None)
        d1 = rates(m, xs, uc, s2)
        d0 = rates(m, xs, u0, s2)
        old = dict(stale(m))
        for k in fs:
            rep.ob("instant", f"{name}-{k}", k not in old, f"the rate of {k} depends on {show(old[k]) if k in old else ''} at the start of the step instead of the state being integrated", where(ix, q, "dynamics"))
        if name in KEEPS:
            gone = FALSE
        elif "vehicle_type" in [f[0] for f in ix.dc_fields(geo_cls(m))] and any(k.startswith("Vehicle") for k in (name,)):
            gone = land(var("has_collided"), lnot(T("cmp", "eq", T("attr", m.prop("model_geometry"), "vehicle_type"), const("car"))))
        else:
            gone = var("has_collided")
        for k in fs:
            rep.eq("own", f"{name}-{k}", N, subst(rhs.args[pos[k]], hold), ite(gone, d0[k], d1[k]), w)
            rep.eq("result", f"{name}-{k}", N, m.field_after(st, k), c["zs"][pos[k]], w, c["success"])
        rep.equiv("failure", f"{name}-returns", N, st.pc, c["success"], w)
        rep.ob("failure", f"{name}-raises", any(contains(o.st.pc, lambda t: t is c["success"]) for o in ra), "no exception if the integration fails", w)
        for o in ra:
            s = m.ip.hget(o.st, m.ref, "_state")
            rep.ob("failure", f"{name}-unchanged", s is m.state_t and not any(k[0] is m.state_t for k in o.st.heap if k[1] in fs), "the state is changed before the failure is noticed", w)
        s = m.ip.hget(st, m.ref, "_state")
        rep.ob("result", f"{name}-type", m.ip.clsof(s) == m.state_cls, f"the new state is a {m.ip.clsof(s)}", w)
        rep.funcs |= m.ip.visited
        rep.notes += m.ip.notes


NON_NUM = ("lights",)


def geo_cls(m):
    g = m.ip.typeof(m.prop("model_geometry"))
    return g.name if g is not None else None


def rates(m, xs, u, st):
    d, s3, ef, ra = m.run("dynamics", xs, u, st=st)
    return {k: m.ip.freeze(m.ip.getattr(d, k, s3), s3) for k in m.fields()}
