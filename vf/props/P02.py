"""Gated value-flow of one arbitrary iteration: when agents are asked, which command each model is stepped with, and by how much."""
from ..simx import *
from ..norm import Norm
from ..index import AnchorError

ASSUMES = ("the iteration order of the players dictionary does not change within a step",)


def check(rep):
    S = SimRun(rep.ix)
    rep.saw(S.res)
    N = Norm(assume=[S.cond])
    rep.rule("schedule", "agents are asked exactly when the command period has elapsed since the last query, starting with the first tick")
    rep.rule("step", "every active model is stepped exactly once per tick by the configured step")
    rep.rule("hold", "a model is stepped with its own agent's latest command")
    Q, Y, got = query_condition(rep, S, N)
    w = got[0].where()
    if not rep.ob("schedule", "condition", Q is not None,
                  f"agents are asked if {show(got[0].guard)[:300]}; there is no time of last query t with which this is: time - t >= dt_commands", w):
        return
    rep.ob("schedule", "sites", len(got) == 1, f"{len(got)} places ask agents for commands in one tick", w)
    e = got[0]
    ok = len(e.loops) == 1
    p = T("elem", e.loops[0][0], e.loops[0][1]) if ok else None
    rep.ob("schedule", "all-agents", ok and active(S, e.loops[0][0], TRUE, p) and not cut_short(S.ip, e), f"asking ranges over {[short(l[0]) for l in e.loops]}", w)
    if not ok:
        return
    rep.ob("schedule", "own-agent", clean(e.ftarget) is T("item", S.players, p), f"{short(e.ftarget)} is asked for player {short(p)}", w)
    a = bindargs(rep.ix.method("Agent", "get_commands"), e.fargs, e.kwargs).get("sim_obs")
    rep.ob("schedule", "own-observation", a is not None and a.op == "mcall" and a.args[1] == "sense" and clean(a.args[0]) is T("item", T("attr", S.ctx, "sensors"), p),
           f"the agent receives {short(a)}", w)
    # time of last query
    st = [x for x in S.iter if x.kind == "store" and x.ftarget is S.self and x.name == Y]
    rep.ob("schedule", "last-query-sites", len(st) == 1 and not st[0].loops, f"the time of the last query is set at {len(st)} places (inside a loop: {bool(st and st[0].loops)})", st[0].where())
    for x in st:
        rep.eq("schedule", "last-query-value", N, clean(x.fvalue), S.time, x.where(), when=x.guard)
        rep.equiv("schedule", "last-query-when", N, x.guard, Q, x.where())
    rep.ob("schedule", "first-tick", starts_at_minus_inf(S, Y), "the time of the last query does not start at minus infinity, so agents may not be asked at the first tick", rep.ix.method("Simulator", "run").qual)
    cmd = T("mcall", clean(e.ftarget), "get_commands", (), (("sim_obs", clean(a)),))
    # stepping
    up = [x for x in S.iter if x.kind == "call" and x.name == "update" and x.ftarget is not None and clean(x.ftarget).op == "item" and clean(x.ftarget).args[0] is S.models]
    rep.count("model stepping sites", len(up), 1)
    rep.ob("step", "sites", len(up) == 1, f"models are stepped at {len(up)} places in one tick", up[0].where())
    u = up[0]
    w = u.where()
    ok = len(u.loops) == 1
    k = T("elem", u.loops[0][0], u.loops[0][1]) if ok else None
    if not rep.ob("step", "all-models", ok and active(S, u.loops[0][0], TRUE, k) and not cut_short(S.ip, u) and not skipped(S.ip, u), f"stepping ranges over {[short(l[0]) for l in u.loops]}", w):
        return
    rep.holds("step", "always", N, u.guard, w, what="stepping an active player's model")
    rep.ob("step", "own-model", clean(u.ftarget) is T("item", S.models, k), f"the model stepped is {short(u.ftarget)}", w)
    b = bindargs(rep.ix.method("SimModel", "update"), u.fargs, u.kwargs)
    rep.eq("step", "step-size", N, clean(b["dt"]), S.dt, w)
    # commands held
    c = b["commands"]
    for v, case in leaves(N, c, Q).items():
        rep.ob("hold", "fresh", cmd_eq(v, cmd, p, k), f"at a query tick the model gets {short(v)} instead of its agent's command", w)
    held = leaves(N, c, lnot(Q))
    slot = None
    for v, case in held.items():
        cv = clean(v)
        ok = cv.op == "item" and cv.args[1] is k and cv.args[0].op == "attr" and cv.args[0].args[0] is S.self
        rep.ob("hold", "held", ok, f"between queries the model gets {short(v)} instead of the command stored for its player", w)
        if ok:
            slot = cv.args[0]
    if slot is not None:
        wr = [x for x in S.iter if x.ftarget is not None and clean(x.ftarget) is slot and x.kind in ("setitem", "mutate", "store")]
        wr += [x for x in S.iter if x.kind == "store" and x.ftarget is S.self and x.name == slot.args[1]]
        rep.ob("hold", "store-sites", len(wr) == 1, f"the stored commands are written at {len(wr)} places", wr[0].where() if wr else w)
        for x in wr:
            key, val = written(x)
            kk = T("elem", x.loops[0][0], x.loops[0][1]) if len(x.loops) == 1 else None
            rep.ob("hold", "store-key", kk is not None and key is kk and active(S, kk.args[0], TRUE, kk) and not cut_short(S.ip, x), f"command stored under {short(key) if key is not None else None}", x.where())
            for v, _ in leaves(N, val, Q).items() if val is not None else ():
                rep.ob("hold", "store-value", cmd_eq(v, cmd, p, kk), f"command stored is {short(v)}", x.where())
            rep.holds("hold", "store-when", N, x.guard, x.where(), when=Q, what="storing the command at a query tick")
            for v, _ in leaves(N, val, land(lnot(Q), x.guard)).items() if val is not None else ():
                rep.ob("hold", "store-held", clean(v) is T("item", slot, kk), f"between queries {short(v)} is stored", x.where())
            if N.fails(x.guard) is None:
                pass


def cmd_eq(v, cmd, p, k):
    """v is the command asked for (with loop element p), for element k"""
    cv = clean(v)
    if cv is subst(cmd, {p: k}):
        return True
    return cv.op == "mcall" and cv.args[1] == "get_commands" and cv.args[0] is subst(cmd.args[0], {p: k}) and cv.args[3] == subst(cmd, {p: k}).args[3]


def written(x):
    if x.kind == "setitem":
        return x.name if isinstance(x.name, T) else None, x.fvalue
    if x.kind == "mutate" and x.name == "update" and x.fargs and x.fargs[0].op == "dict" and len(x.fargs[0].args) == 1:
        return x.fargs[0].args[0]
    return None, x.fvalue


def skipped(ip, e):
    return False


def starts_at_minus_inf(S, Y):
    st = S.ip.seg["stinit"]
    v = S.ip.hget(st, S.self, Y)
    if v is None or v is T("attr", S.self, Y):
        r = S.ix.find_attr(S.cls.qual, Y)
        if r is None:
            return False
        v = S.ip.getattr(S.self, Y, State(), None) if False else S.ip.cls_getattr(T("cls", S.cls.qual), Y, State())
    return neg_inf(v)


def neg_inf(v):
    if v is None:
        return False
    if v.op == "const":
        return v.args[0] == float("-inf") or str(v.args[0]).lower() in ("-infinity", "-inf")
    if v.op in ("call", "fn"):
        return any(neg_inf(x) for x in subterms(v) if x is not v and x.op == "const")
    if v.op == "neg":
        return contains(v, lambda x: x.op == "const" and (x.args[0] == float("inf") or str(x.args[0]).lower() in ("infinity", "inf")))
    return False
