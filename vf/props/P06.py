"""Enumeration of every logging effect of the set-up, one arbitrary iteration and the wind-up, against the documented content."""
from ..simx import *
from ..norm import Norm
from ..scan import Scan
from ..effects import Effects
from ..absint import Interp, State
from ..types import Ty
from .P02 import cmd_eq
from .P21 import Seqs, builder as recorders


def check(rep):
    S = SimRun(rep.ix)
    rep.saw(S.res)
    N = Norm(assume=[S.cond])
    rep.rule("logger", "every player starts with its own fresh recorder")
    rep.rule("add", "each kind of sample is logged once, at the current time, with the right value, under the player's own name")
    rep.rule("result", "the result has one log per player that took part, built from its own recorder only")
    fadd = rep.ix.method("DgSampledSequenceBuilder", "add")
    SL = T("attr", S.self, "simlogger")
    # recorder per player
    rebuilt = [e for e in S.init if e.kind == "store" and e.ftarget is S.self and e.name == "simlogger"]
    fresh = {e.value for e in rebuilt}
    ini = [e for e in S.init if e.kind == "setitem" and (clean(e.ftarget) is SL or e.target in fresh)]
    vals = []
    for e in ini:
        ok = len(e.loops) == 1 and clean(e.loops[0][0]) in (S.players, S.models) and e.guard is TRUE and not cut_short(S.ip, e)
        p = T("elem", e.loops[0][0], e.loops[0][1]) if ok else None
        rep.ob("logger", "per-player", ok and e.name is p, f"recorder set for {short(e.name)}", e.where())
        if ok:
            vals.append((e.fvalue, p, e.where()))
    for e in rebuilt:
        v = e.fvalue
        if v.op == "comp" and v.args[0] == "dict" and clean(v.args[2]) in (S.players, S.models) and v.args[3] is TRUE:
            k, x = v.args[4].args if v.args[4].op == "tuple" else v.args[4]
            p = T("elem", v.args[2], v.args[1])
            rep.ob("logger", "per-player", k is p, f"recorder set for {short(k)}", e.where())
            vals.append((x, p, e.where()))
    rep.count("recorder creations", len(vals), 1)
    kinds = [f.name for f in fields(rep.ix, "PlayerLogger")]
    for v, p, w in vals:
        ok = v.op == "rec" and v.args[0].endswith("PlayerLogger")
        if not rep.ob("logger", "fresh", ok, f"the recorder is {short(v)}", w):
            continue
        for k in kinds:
            x = rec_field(v, k)
            rep.ob("logger", f"fresh-{k}", x is not None and x.op == "rec" and x.args[0].endswith("DgSampledSequenceBuilder"), f"{k} recorder is {short(x)}", w)
    sc = Scan(rep.ix)
    sc.infer_sets()
    E = Effects(sc)
    pl = rep.ix.cls("PlayerLogger")
    for k in kinds:
        v = E.heapval(pl.qual, k)
        g = sorted({t[1] for t in v[0] | v[1] if t[0] == "g"})
        rep.ob("logger", f"unshared-{k}", not g, f"the {k} recorder of a player may be {g}, which all players share", f"{pl.mod.path}:{pl.node.lineno}")
    # samples
    got = [e for e in S.iter if e.kind == "call" and e.name == "get_commands"]
    rep.count("command query sites", len(got), 1)
    Q = got[0].guard
    g0 = got[0]
    pq = T("elem", g0.loops[0][0], g0.loops[0][1])
    cmd = T("mcall", clean(g0.ftarget), "get_commands", (), (("sim_obs", clean(bindargs(rep.ix.method("Agent", "get_commands"), g0.fargs, g0.kwargs).get("sim_obs"))),))
    clk = next((e.seq for e in S.iter if e.kind == "store" and e.ftarget is S.ctx and e.name == "time"), 10 ** 9)
    adds = [e for e in S.iter if e.kind == "call" and e.name == "add" and e.func != fadd.qual and contains(e.ftarget, lambda x: x is SL)]
    rep.count("logging sites", len(adds), 5)
    seen = {}
    for e in adds:
        w = e.where()
        t = clean(e.ftarget)
        if not rep.ob("add", "target", t.op == "attr" and t.args[0].op == "item" and t.args[0].args[0] is SL and len(e.loops) == 1, f"sample added to {short(t)}", w):
            continue
        kind = t.args[1]
        p = T("elem", e.loops[0][0], e.loops[0][1])
        b = bindargs(fadd, e.fargs, e.kwargs)
        if e.seq > clk:
            rep.ob("add", "late", kind == "states", f"{kind} logged after the clock has moved", w)
            continue
        seen.setdefault(kind, []).append(e)
        rep.ob("add", f"{kind}-own-name", t.args[0].args[1] is p and active(S, p.args[0], TRUE, p) and not cut_short(S.ip, e), f"{kind} logged under {short(t.args[0].args[1])}", w)
        rep.eq("add", f"{kind}-time", N, clean(b["t"]), S.time, w)
        v = b["v"]
        if kind == "states":
            rep.ob("add", "states-value", clean(v) is T("mcall", T("item", S.models, p), "get_state", (), ()) and not has_ver(v), f"state logged is {show(v, 0, 9)[:200]}", w)
            rep.holds("add", "states-when", N, e.guard, w, what="logging the state before the step")
        elif kind == "commands":
            for x, _ in leaves(N, v, e.guard).items():
                rep.ob("add", "commands-value", cmd_eq(x, cmd, pq, p), f"command logged is {short(x)}", w)
            rep.equiv("add", "commands-when", N, e.guard, Q, w)
        elif kind == "info":
            rep.equiv("add", "info-when", N, e.guard, Q, w)
            ok = v.op == "sub" and v.args[0].op == "clock" and v.args[1].op == "clock" and v.args[0].args[0] == v.args[1].args[0]
            rep.ob("add", "info-value", ok and v.args[1].args[1] < g0.seq < v.args[0].args[1], f"the time logged is {short(v)}, not the duration of asking for the command", w)
        elif kind == "extra":
            x = T("mcall", T("item", S.players, p), "on_get_extra", (), ())
            rep.ob("add", "extra-value", clean(v) is x, f"extra logged is {short(v)}", w)
            rep.equiv("add", "extra-when", N, clean(e.guard), land(clean(Q), lnot(T("cmp", "is", NONE, x))), w)
        else:
            rep.ob("add", kind, False, f"unknown kind of log {kind}", w)
    for k in kinds:
        rep.ob("add", f"{k}-once", len(seen.get(k, ())) == 1, f"{k} are logged at {len(seen.get(k, ()))} places per step", S.fi.qual)
    # result
    LG = T("attr", S.ctx, "log")
    fin = [e for e in S.final if e.kind == "setitem" and clean(e.ftarget) is LG]
    for e in [e for e in S.final if e.kind == "mutate" and clean(e.ftarget) is LG]:
        rep.ob("result", "form", False, f"log changed by {e!r}"[:200], e.where())
    rep.count("result sites", len(fin), 1)
    plog = [f.name for f in fields(rep.ix, "PlayerLog")]
    for e in fin:
        w = e.where()
        ok = len(e.loops) == 1 and clean(e.loops[0][0]) in (S.models, SL) and e.guard is TRUE and not cut_short(S.ip, e)
        if not rep.ob("result", "everyone", ok, f"logs are written for {[short(l[0]) for l in e.loops]}", w):
            continue
        p = T("elem", e.loops[0][0], e.loops[0][1])
        rep.ob("result", "own-name", e.name is p, f"log written under {short(e.name)}", w)
        v = e.fvalue
        if not rep.ob("result", "type", v.op == "rec" and v.args[0].endswith("PlayerLog"), f"log is {short(v)}", w):
            continue
        builder = {"actions": "commands"}
        for k in plog:
            x = rec_field(v, k)
            want = T("mcall", T("attr", T("item", SL, p), builder.get(k, k)), "as_sequence", (), ())
            rep.ob("result", f"own-{k}", x is not None and clean(x) is want, f"{k} of the log is {short(x)}", w)
    store(rep)
    rep.rule("builder", "a recorder keeps every sample added to it, in order, and hands all of them over")
    rep.rule("immutable", "a log handed over does not change anymore")
    recorders(rep, Seqs(rep), Norm())


def store(rep):
    """setting the log of a player makes that very log readable under the player's name, also again"""
    ix = rep.ix
    q = ix.cls("SimLog").qual
    m = ix.find_method(q, "__setitem__")
    w = f"{m[0].mod.path}:{m[1].lineno} {m[0].qual}.__setitem__" if m else ix.cls("SimLog").mod.path
    ip, st = Interp(ix), State()
    o = ip.instantiate(q, (), (), st, None)
    now = {}
    for i, p in enumerate(("A", "B", "A")):
        v = var(f"log{i}")
        ip.types[v] = Ty(ix.cls("PlayerLog").qual)
        ip.exact.add(v)
        if m:
            ip.call_method(o, m, (const(p), v), (), st, None)
        else:
            ip.setitem(o, const(p), v, st, None)
        now[p] = v
        for k, x in now.items():
            got = ip.freeze(ip.getitem(o, const(k), st), st)
            rep.ob("result", f"stored, write {i}, player {k}", got is x and st.pc is TRUE, f"log of {k} reads {show(got)[:100]} when {show(st.pc)[:100]} after {list(now)}", w)
    rep.funcs |= ip.visited
    rep.notes += ip.notes


class _F:
    def __init__(self, n):
        self.name = n


def fields(ix, c):
    fs = ix.dc_fields(ix.cls(c).qual)
    return [_F(f if isinstance(f, str) else getattr(f, "name", f[0])) for f in fs]
