"""One symbolic call of every controller method from an arbitrary controller state, compared with the saturated PID law."""
from ..absint import Interp, State
from ..norm import Norm
from ..terms import *
from ..types import Ty

FIELDS = ("measurement", "reference", "last_request_at", "last_integral_error", "last_proportional_error")


def clip(x, r):
    lo, hi = T("item", r, ZERO), T("item", r, ONE)
    return ite(T("cmp", "lt", x, lo), lo, ite(T("cmp", "lt", hi, x), hi, x))


def check(rep):
    ix = rep.ix
    rep.rule("start", "a new controller has no history")
    rep.rule("reference", "a reference is limited to the set-point range when it is set")
    rep.rule("measurement", "a measurement is taken over as it is")
    rep.rule("integral", "the integral part accumulates the error over the elapsed time within the anti-windup range")
    rep.rule("history", "time and error are remembered from the immediately preceding call")
    rep.rule("output", "the control is the sum of the three terms, limited to the output range")
    rep.rule("only", "methods change nothing else")
    base = ix.cls("PID").qual
    qs = sorted(ix.subclasses(base))
    if base not in qs:
        qs.insert(0, base)
    rep.count("controllers", len(qs), 3)
    pq = ix.cls("PIDParam").qual
    for q in qs:
        name = q.split(".")[-1]
        for since in ("first call", "later call"):
            ip, st = Interp(ix), State()
            prm = var("params")
            ip.types[prm] = Ty(pq)
            ip.exact.add(prm)
            ref = ip.instantiate(q, (prm,), (), st, None)
            P = {k: T("attr", prm, k) for k in ("kP", "kI", "kD", "antiwindup", "setpoint_minmax", "output_minmax")}
            N = Norm(assume=[T("cmp", "lt", T("item", P[k], ZERO), T("item", P[k], ONE)) for k in ("antiwindup", "setpoint_minmax", "output_minmax")] +
                     [lnot(T("cmp", "is", NONE, t)) for t in (prm, var("last_request_at"))])

            def loc(m):
                f = ix.find_method(q, m)
                return f"{f[0].mod.path}:{f[1].lineno} {f[0].qual}.{m}"

            def field(st, k):
                return ip.freeze(ip.getattr(ref, k, st), st)
            if since == "first call":
                for k in FIELDS:
                    rep.eq("start", f"{name}-{k}", N, field(st, k), NONE if k == "last_request_at" else ZERO, loc("__init__"))
                rep.eq("start", f"{name}-params", N, field(st, "params"), prm, loc("__init__"))
            # an arbitrary state
            known = {k for (o, k) in st.heap if o is ref}
            S0 = {k: var(k) for k in FIELDS}
            if since == "first call":
                S0["last_request_at"] = NONE
            for k in known - {"params"}:
                st.heap[(ref, k)] = S0.get(k, var(k) if isinstance(k, str) and k.isidentifier() else st.heap[(ref, k)])

            def call(meth, *args):
                s = st.fork()
                ip.raises = []
                n = len(ip.effects)
                f = ix.find_method(q, meth)
                v = ip.call(T("bound", ref, f[0].qual + "." + meth), args, (), s, None)
                return ip.freeze(v, s), s, [e for e in ip.effects[n:]]

            def unchanged(meth, s, but, efs):
                for k in FIELDS:
                    if k not in but:
                        rep.eq("only", f"{name}.{meth}-{k}-{since}", N, field(s, k), S0[k], loc(meth))
                bad = [e for e in efs if e.kind in ("setitem", "mutate") or (e.kind == "store" and e.target is not ref)]
                rep.ob("only", f"{name}.{meth}-elsewhere-{since}", not bad, f"{bad[:1]!r}", bad[0].where() if bad else loc(meth))
                rep.holds("only", f"{name}.{meth}-returns-{since}", N, s.pc, loc(meth), what="the method returns, which")
            x = var("x")
            if since == "first call":
                v, s, efs = call("update_reference", x)
                rep.eq("reference", name, N, field(s, "reference"), clip(x, P["setpoint_minmax"]), loc("update_reference"))
                unchanged("update_reference", s, ("reference",), efs)
                v, s, efs = call("update_measurement", x)
                rep.eq("measurement", name, N, field(s, "measurement"), x, loc("update_measurement"))
                unchanged("update_measurement", s, ("measurement",), efs)
            at = var("at")
            v, s, efs = call("get_control", at)
            w = loc("get_control")
            dt = ZERO if since == "first call" else T("sub", at, S0["last_request_at"])
            err = T("sub", S0["reference"], S0["measurement"])
            integ = clip(T("add", S0["last_integral_error"], T("mul", T("mul", P["kI"], err), dt)), P["antiwindup"])
            still = T("cmp", "eq", dt, ZERO) if since != "first call" else TRUE
            der = ite(still, ZERO, T("div", T("sub", err, S0["last_proportional_error"]), dt))
            out = T("add", T("add", T("mul", P["kP"], err), integ), T("mul", P["kD"], der))
            rep.eq("integral", f"{name}-{since}", N, field(s, "last_integral_error"), integ, w)
            rep.eq("history", f"{name}-time-{since}", N, field(s, "last_request_at"), at, w)
            rep.eq("history", f"{name}-error-{since}", N, field(s, "last_proportional_error"), err, w)
            for case, c in (("moving", lnot(still)), ("still", still)):
                if c is not FALSE:
                    rep.eq("output", f"{name}-{since}-{case}", N, v, clip(out, P["output_minmax"]), w, c)
            unchanged("get_control", s, ("last_integral_error", "last_request_at", "last_proportional_error"), efs)
            rep.funcs |= ip.visited
            rep.notes += ip.notes
