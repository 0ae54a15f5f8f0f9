"""Order of effects of one arbitrary simulator iteration, and who writes the clock and the termination flag anywhere in the package."""
from ..simx import *
from ..norm import Norm

PRE = {"sense", "get_commands", "on_get_extra"}
POST = {"is_fulfilled", "resolve_collision", "resolve_collision_with_environment", "dg_commons.sim.collision.resolve_collision",
        "dg_commons.sim.collision.resolve_collision_with_environment"}


def check(rep):
    S = SimRun(rep.ix)
    rep.saw(S.res)
    N = Norm(assume=[S.cond])
    rep.rule("clock", "the clock is written once per iteration, by adding exactly the step")
    rep.rule("order", "observe, ask and step before the clock moves; goals, termination, collisions after it, in this order")
    rep.rule("writers", "only the simulation loop writes the clock, the termination flag and the set of active players")
    it = S.iter
    clk = [e for e in it if e.kind == "store" and e.ftarget is S.ctx and e.name == "time"]
    rep.count("clock updates", len(clk), 1)
    rep.ob("clock", "once", len(clk) == 1 and not clk[0].loops, f"the clock is written {len(clk)} times per iteration (or inside a loop)", clk[0].where())
    c = clk[0]
    rep.eq("clock", "value", N, clean(c.fvalue), T("add", S.time, S.dt), c.where())
    rep.holds("clock", "always", N, c.guard, c.where(), what="advancing the clock")
    pre = [e for e in it if e.kind == "call" and (e.name in PRE or is_step(S, e))]
    rep.count("observing, asking and stepping sites", len(pre), 3)
    for e in pre:
        rep.ob("order", f"{e.name}-before-clock", e.seq < c.seq, f"{e.name} happens after the clock has moved", e.where())
    post = [e for e in it if e.kind == "call" and e.name in POST]
    rep.count("goal and collision sites", len(post), 3)
    for e in post:
        rep.ob("order", f"{e.name.split('.')[-1]}-after-clock", e.seq > c.seq, f"{e.name} happens before the clock has moved", e.where())
    rm = removals(S)
    rep.count("player removal sites", len(rm), 1)
    term = [e for e in it if e.kind == "store" and e.ftarget is S.ctx and e.name == "sim_terminated"]
    rep.count("termination decisions", len(term), 1)
    for e in rm:
        rep.ob("order", "removal-after-clock", e.seq > c.seq, "players are removed before the clock has moved", e.where())
        rep.ob("order", "removal-before-termination", all(e.seq < t.seq for t in term), "players are removed after termination has been decided", e.where())
    done = S.ip.hget(S.ip.seg["end"], S.ctx, "sim_terminated") if S.ip.seg["end"] is not None else None
    tval = None
    for t in term:
        rep.ob("order", "termination-after-clock", t.seq > c.seq and not t.loops, "termination is decided before the clock has moved or in a loop", t.where())
    for e in post:
        if e.name == "is_fulfilled":
            continue
        n = e.name.split(".")[-1]
        rep.ob("order", f"{n}-after-termination", all(t.seq < e.seq for t in term), "collisions are examined before termination is decided", e.where())
        if done is not None:
            d = setnorm(clean(done))
            N2 = Norm(assume=[S.cond])
            rep.holds("order", f"{n}-only-if-going-on", N2, lnot(d), e.where(), when=setnorm(clean(e.guard)), what="the simulation going on when collisions are examined")
    # nothing leaves or repeats the loop in another way
    ex = [o for o in S.exits]
    for i, o in enumerate(ex):
        rep.holds("order", f"loop-exit-{i}", Norm(), T("attr", S.ctx, "sim_terminated"), f"{S.fi.qual}", when=o.st.pc, what="the simulation being terminated when the loop is left")
    rep.equiv("order", "loop-condition", Norm(), S.cond, S.cond if S.cond is TRUE and ex else lnot(T("attr", S.ctx, "sim_terminated")), S.fi.qual)
    # writers
    seen = S.ip.visited
    n = 0
    for f, node, obj, name in attr_writes(rep.ix, {"time", "sim_terminated", "first_collision_ts"}):
        if f.qual in seen and (f.cls is not None and f.cls is S.cls or f.qual.startswith(S.cls.qual)):
            n += 1
            continue
        if name == "time" and not may_be_context(S, f, obj):
            continue
        n += 1
        rep.ob("writers", f"{f.qual}:{name}", f.qual in seen and f.mod is S.fi.mod, f"{f.qual} writes {name} of the simulation context", f"{f.mod.path}:{node.lineno}")
    rep.count("writes of clock, flag and first collision time", n, 4)
    for e in S.init + S.final:
        if e.kind == "store" and e.ftarget is S.ctx and e.name in ("time", "sim_terminated", "players", "first_collision_ts"):
            rep.ob("writers", f"run:{e.name}", False, f"{e.name} of the context is set outside the simulation steps", e.where())
        if e.kind in ("mutate", "setitem") and e.ftarget is not None and clean(e.ftarget) is S.players:
            rep.ob("writers", "run:players", False, "the set of active players is changed outside the simulation steps", e.where())
    for f, cls in ctor_writers(rep.ix):
        rep.ob("writers", f"{f.qual}:new-context-in-loop", f.qual not in seen, "the running context is replaced", f.qual)


def is_step(S, e):
    return e.name == "update" and e.ftarget is not None and clean(e.ftarget).op == "item" and clean(e.ftarget).args[0] is S.models


def removals(S):
    out = []
    for e in S.iter:
        if e.ftarget is not None and clean(e.ftarget) is S.players and e.kind in ("mutate", "setitem"):
            out.append(e)
        if e.kind == "store" and e.ftarget is S.ctx and e.name == "players":
            out.append(e)
    return out


def may_be_context(S, f, obj):
    """syntactic class of the receiver: annotated SimContext, or not known to be something else and named like it"""
    if isinstance(obj, ast.Name):
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == obj.id and x.annotation is not None:
                return "SimContext" in ast.unparse(x.annotation)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == obj.id for t in n.targets):
                return "SimContext" in ast.unparse(n.value) or "sim_context" in ast.unparse(n.value)
        return "context" in obj.id
    return "context" in ast.unparse(obj)


def ctor_writers(ix):
    out = []
    for f in ix.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "SimContext":
                out.append((f, n))
    return out
