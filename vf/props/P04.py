"""Truth-table comparison of the value written to the termination flag with the documented condition."""
from ..simx import *
from ..norm import Norm

def check(rep):
    S = SimRun(rep.ix)
    rep.saw(S.res)
    rep.rule("condition", "after a step the flag is set exactly to the documented condition")
    end = S.ip.seg["end"]
    N = Norm(assume=[S.cond], atom=None)
    st = [e for e in S.iter if e.kind == "store" and e.ftarget is S.ctx and e.name == "sim_terminated"]
    rep.count("termination decisions", len(st), 1)
    got = S.ip.hget(end, S.ctx, "sim_terminated")
    got = setnorm(quant(clean(S.ip.freeze(got, end)), S))
    par = T("attr", S.ctx, "param")
    t1 = T("add", S.time, S.dt)
    fct = T("attr", S.ctx, "first_collision_ts")
    lt = lambda a, b: T("cmp", "lt", a, b)
    here = anywhere(S)
    want = lor(lt(T("attr", par, "max_sim_time"), t1), lt(T("add", fct, T("attr", par, "sim_time_after_collision")), t1),
               lnot(S.players), land(S.missions, lnot(here)))
    w = st[-1].where()
    N = Norm(assume=[S.cond, lor(lnot(here), S.players), lor(lnot(here), S.missions)])
    rep.equiv("condition", "documented-condition", N, got, want, w)
    # the values tested are the ones after the removal and before the collisions of this step
    raw = S.ip.hget(end, S.ctx, "sim_terminated")
    rm = [e for e in S.iter if e.ftarget is not None and clean(e.ftarget) is S.players and e.kind == "mutate"]
    rep.ob("condition", "after-removal", all(e.seq < s.seq for e in rm for s in st), "players are removed after termination has been decided", w)
    rep.ob("condition", "not-in-loop", all(not s.loops for s in st), "the decision is taken inside a loop", w)


def anywhere(S):
    """some player with a mission is still active"""
    return T("somein", S.missions, S.players)


def quant(t, S):
    """quantifiers over missions/players in the form `somein`"""
    M, P = S.missions, S.players
    some = anywhere(S)

    def unwrap(x):
        while x.op == "fn" and x.args[0] in ("keys", "set", "list", "tuple", "frozenset", "sorted") and len(x.args) == 2:
            x = x.args[1]
        if x.op == "mcall" and x.args[1] == "keys":
            return unwrap(x.args[0])
        if x.op == "comp" and x.args[3] is TRUE and x.args[4] is T("elem", x.args[2], x.args[1]):
            return unwrap(x.args[2])
        return x

    def f(x):
        o, a = x.op, x.args
        if o == "any":
            it, d, c = a
            e = T("elem", it, d)
            u = unwrap(it)
            other = P if u is M else M if u is P else None
            if other is not None:
                if c is T("cmp", "in", e, other):
                    return some
                if c is lnot(T("cmp", "in", e, other)):
                    return T("somenotin", u, other)
            return x
        if o == "comp" and a[0] in ("list", "set"):
            it, d, c = a[2], a[1], a[3]
            e = T("elem", it, d)
            u = unwrap(it)
            other = P if u is M else M if u is P else None
            if other is not None and c is T("cmp", "in", e, other):
                return T("fn", "inter", M, P)
        if o == "mcall" and a[1] in ("isdisjoint", "intersection") and len(a[2]) == 1:
            p, q = unwrap(a[0]), unwrap(a[2][0])
            if {p, q} == {M, P}:
                return lnot(some) if a[1] == "isdisjoint" else T("fn", "inter", M, P)
        if o == "fn" and a[0] in ("and", "intersect", "bitand") and {unwrap(y) for y in a[1:]} == {M, P}:
            return T("fn", "inter", M, P)
        if o == "fn" and a[0] == "len" and a[1] is T("fn", "inter", M, P):
            return T("fn", "len", T("fn", "inter", M, P))
        return x
    t = rebuild(t, f)
    t = setnorm(t)
    return rebuild(t, lambda x: some if x is T("fn", "inter", M, P) else x)
