"""Value-flow of one arbitrary simulator iteration: the observation handed to every sensor is one fresh record over the
active players whose states and footprints are read before any model is stepped."""
from ..simx import *
from ..norm import Norm

ASSUMES = ("agents, sensors and goals do not modify the objects handed to them (P08, P09, P31)",)


def check(rep):
    S = SimRun(rep.ix)
    rep.saw(S.res)
    N = Norm(assume=[S.cond])
    sense = [e for e in S.iter if e.kind == "call" and e.name == "sense"]
    rep.count("sensing call sites", len(sense), 1)
    fi = rep.ix.method("ObsFilter", "sense")
    rep.rule("sensed-by-all", "every active player senses in every tick in which commands are asked for")
    rep.rule("snapshot", "the observation sensed is the same for all players and contains exactly the active players' current states and footprints")
    for e in sense:
        w = e.where()
        b = bindargs(fi, e.fargs, e.kwargs)
        ok = len(e.loops) == 1 and clean(e.loops[0][0]) is S.players and not has_ver(e.loops[0][0])
        rep.ob("sensed-by-all", "range", ok, f"sensing ranges over {[short(l[0]) for l in e.loops]} instead of the active players", w)
        rep.ob("sensed-by-all", "exhaustive", not cut_short(S.ip, e), "the loop over the players can end early", w)
        if not ok:
            continue
        p = T("elem", e.loops[0][0], e.loops[0][1])
        rep.ob("sensed-by-all", "own-sensor", clean(e.ftarget) is T("item", T("attr", S.ctx, "sensors"), p), f"sensor is {short(e.ftarget)}", w)
        rep.ob("sensed-by-all", "own-view", b.get("pov") is p, f"observer is {short(b.get('pov'))}", w)
        rep.ob("sensed-by-all", "scenario", clean(b.get("scenario")) is T("attr", S.ctx, "dg_scenario"), f"scenario is {short(b.get('scenario'))}", w)
        vals = leaves(N, b["full_obs"], e.guard)
        rep.ob("snapshot", "reachable", bool(vals), "commands are never asked for", w)
        for v, case in vals.items():
            rep.ob("snapshot", "common", not contains(v, lambda x: x is p and False) and not free_elem(v, p), f"the observation differs between players: {short(v)}", w)
            snapshot(rep, S, v, w)


def free_elem(v, p):
    """p occurs outside a comprehension that binds it"""
    if v is p:
        return True
    if isinstance(v, tuple):
        return any(free_elem(x, p) for x in v)
    if not isinstance(v, T):
        return False
    if v.op in ("comp", "any", "fold", "first", "sum"):
        k = 1 if v.op == "comp" else 0
        d, it = (v.args[1], v.args[2]) if v.op == "comp" else (v.args[1], v.args[0])
        if d == p.args[1] and it is p.args[0]:
            return free_elem(it, p)
    return any(free_elem(x, p) for x in v.args)


def snapshot(rep, S, v, w):
    ok = v.op == "rec" and v.args[0].endswith("SimObservations")
    if not rep.ob("snapshot", "fresh", ok, f"when commands are asked for, the observation is {short(v)} instead of a freshly built one", w):
        return
    rep.ob("snapshot", "time", rec_field(v, "time") is S.time, f"time stamp is {short(rec_field(v, 'time'))}", w)
    pl = rec_field(v, "players")
    while pl.op == "fn" and pl.args[0] in ("dict", "fd", "frozendict") and len(pl.args) == 2:
        pl = pl.args[1]
    if pl.op == "comp" and pl.args[0] == "dict":
        _, d, it, cond, kv = pl.args
        rep.ob("snapshot", "exactly-active", clean(it) is S.players and not has_ver(it) and cond is TRUE,
               f"observed players are those of {short(it)}{' if ' + short(cond) if cond is not TRUE else ''}", w)
        k, val = kv.args if kv.op == "tuple" else kv
        p = T("elem", it, d)
        rep.ob("snapshot", "keys", k is p, f"observations are keyed by {short(k)}", w)
        m = T("item", S.models, p)
        for f, g in (("state", "get_state"), ("occupancy", "get_footprint")):
            x = rec_field(val, f)
            good = x is not None and x.op == "mcall" and x.args[0] is m and x.args[1] == g and not x.args[2] and not has_ver(x)
            rep.ob("snapshot", f, good, f"the observed {f} of a player is {show(x, 0, 9)[:200] if x is not None else None}, not its model's {g}() before the step", w)
    else:
        rep.ob("snapshot", "players", False, f"observed players are {short(pl)}", w)
