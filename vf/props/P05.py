"""Gated effects of one arbitrary iteration that change the set of active players, against the documented removal condition."""
from ..simx import *
from ..norm import Norm
from .P03 import removals


def check(rep):
    S = SimRun(rep.ix)
    rep.saw(S.res)
    rep.rule("removal", "a player is removed exactly if it is active, has a mission and its own goal holds for its own current state now")
    rep.rule("logged", "its final state is logged at the current time before it leaves")
    rep.rule("others", "removing one player touches nothing of the others")
    N = Norm(assume=[S.cond])
    rm = removals(S)
    rep.count("player removal sites", len(rm), 1)
    t1 = T("add", S.time, S.dt)
    ful = rep.ix.method("PlanningGoal", "is_fulfilled")
    for e in rm:
        w = e.where()
        ok = e.kind == "mutate" and e.name in ("pop", "__delitem__", "del") and e.fargs and len(e.loops) == 1
        if not rep.ob("removal", "form", ok, f"the active players are changed by {e!r}"[:300], w):
            continue
        it = e.loops[0][0]
        p = T("elem", it, e.loops[0][1])
        rep.ob("removal", "who", e.fargs[0] is p, f"the player removed is {short(e.fargs[0])}", w)
        rep.ob("removal", "all-players", clean(it) in (S.players, S.missions) and not cut_short(S.ip, e), f"finished players are searched in {short(it)}, possibly not to the end", w)
        state = T("mcall", T("item", S.models, p), "get_state", (), ())
        done = T("mcall", T("item", S.missions, p), "is_fulfilled", (), (("at", t1), ("state", state)))
        want = land(done, TRUE if clean(it) is S.players else T("cmp", "in", p, S.players), TRUE if clean(it) is S.missions else T("cmp", "in", p, S.missions))
        g = rebuild(clean(e.guard), lambda x: norm_get(x, S, p))
        rep.equiv("removal", "condition", N, g, want, w)
        for x in subterms(e.guard):
            if x.op == "mcall" and x.args[1] == "get_state":
                rep.ob("removal", "current-state", x.args[0].op == "item" and len(x.args[0].args) > 2 and x.args[0].args[2] is not None,
                       "the goal is evaluated on a state read before the models were stepped", w)
        live = [n for n in loops_over(S, e) if iterates_directly(n, "players")]
        rep.ob("removal", "no-change-under-iteration", not live, "players are removed from the dictionary that is being iterated", w)
        # log
        logs = [x for x in S.iter if x.kind == "call" and x.name == "add" and clean(x.ftarget) is T("attr", T("item", T("attr", S.self, "simlogger"), p), "states") and x.loops[:1] == e.loops[:1]
                and contains(x.guard, lambda z: z.op == "mcall" and z.args[1] == "is_fulfilled")]
        rep.ob("logged", "site", len(logs) == 1, f"{len(logs)} places log the final state of a player that leaves", w)
        for x in logs:
            b = bindargs(rep.ix.method("DgSampledSequenceBuilder", "add"), x.fargs, x.kwargs)
            rep.eq("logged", "time", N, clean(b["t"]), t1, x.where())
            v = b["v"]
            rep.ob("logged", "state", clean(v) is state and has_ver(v), f"the final state logged is {short(v)}", x.where())
            rep.equiv("logged", "when", N, rebuild(clean(x.guard), lambda y: norm_get(y, S, p)), want, x.where())
    for e in S.iter:
        tgt = clean(e.ftarget) if e.ftarget is not None else None
        if e.kind in ("mutate", "setitem") and tgt in (S.models, S.missions):
            rep.ob("others", f"{short(tgt)}", False, "models or missions are changed while the simulation runs", e.where())
        if e.kind == "store" and e.ftarget is S.ctx and e.name in ("models", "missions"):
            rep.ob("others", e.name, False, "models or missions are replaced while the simulation runs", e.where())
        if e.kind in ("mutate", "setitem", "store") and tgt is not None and tgt.op in ("attr", "item") and contains(tgt, lambda x: x is T("attr", S.self, "simlogger")):
            rep.ob("others", "simlogger", False, f"logs are changed other than by adding samples: {e!r}"[:200], e.where())
        if rm and e.kind in ("mutate", "setitem", "store") and tgt is not None and contains(e.guard, lambda z: z.op == "mcall" and z.args[1] == "is_fulfilled"):
            own = [T("elem", l[0], l[1]) for x in rm for l in x.loops]
            held = tgt.op == "attr" and tgt.args[0] is S.self or e.kind == "store" and tgt is S.self
            key = e.name if e.kind == "setitem" else e.fargs[0] if e.name in ("pop", "discard", "remove", "__delitem__", "del") and e.fargs else None
            rep.ob("others", f"own-entry {short(tgt)}", not held or key in own, f"removing a player changes what the simulator keeps of others: {e!r}"[:200], e.where())
    rep.ob("others", "scanned", len(S.iter) > 5, "the iteration has no effects", "")


def norm_get(x, S, p):
    """missions.get(p) as missions[p] / membership"""
    if x.op == "cmp" and x.args[0] == "is" and NONE in x.args[1:]:
        y = x.args[1] if x.args[2] is NONE else x.args[2]
        if y is T("item", S.missions, p) or y.op in ("mcall", "fn") and "get" in (y.args[0], y.args[1]) and contains(y, lambda z: z is S.missions):
            return lnot(T("cmp", "in", p, S.missions))
    if x.op == "mcall" and x.args[1] == "get" and x.args[0] is S.missions and x.args[2] and x.args[2][0] is p:
        return T("item", S.missions, p)
    if x.op == "ite" and x.args[0] is T("cmp", "in", p, S.missions) and x.args[2] is NONE:
        return x
    return x


def loops_over(S, e):
    f = S.ix.funcs.get(e.func)
    if f is None:
        return []
    return [n for n in ast.walk(f.node) if isinstance(n, ast.For) and n.lineno <= e.line <= n.end_lineno]


def iterates_directly(n, attr):
    x = n.iter
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("items", "keys", "values") and not x.args:
        x = x.func.value
    return isinstance(x, ast.Attribute) and x.attr == attr
