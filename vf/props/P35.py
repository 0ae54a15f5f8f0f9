"""Symbolic evaluation of the combination of two collision reports in both orders of time, compared field by field."""
from ..absint import Interp, State
from ..effects import Effects
from ..enumx import generators
from ..norm import Norm
from ..scan import Scan
from ..simx import rec_field
from ..terms import *
from ..types import Ty

A, B, P, SAME = var("ra"), var("rb"), var("p"), var("same players")
PL = {r: T("attr", r, "players") for r in (A, B)}
VIEWS = ("set", "list", "tuple", "sorted", "frozenset", "iter", "dict", "keys")


def keyset(t):
    """which report's player names a term enumerates, or None."""
    while True:
        if t in PL.values():
            return t
        if t.op == "fn" and t.args[0] in VIEWS and len(t.args) == 2:
            t = t.args[1]
        elif t.op == "mcall" and t.args[1] == "keys":
            t = t.args[0]
        elif t.op == "comp" and t.args[3] == TRUE and t.args[4] == T("elem", t.args[2], t.args[1]):
            t = t.args[2]
        elif t.op == "fn" and t.args[0] in ("union", "intersection") or t.op in ("union", "bitor", "bitand"):
            ks = {keyset(x) for x in t.args if isinstance(x, T)}
            return None if None in ks else next(iter(ks))
        else:
            return None


def same(t):
    def f(x):
        if x.op == "cmp" and x.args[0] == "eq" and {keyset(x.args[1]), keyset(x.args[2])} == set(PL.values()):
            return SAME
        return x
    return rebuild(t, f)


def entry(t, loops):
    """rewrite what a loop over the players gives in terms of one player p."""
    m = {}
    for el, src in loops:
        if keyset(src) is not None:
            m[el] = P
        elif src.op == "mcall" and src.args[1] == "items" and keyset(src.args[0]) is not None:
            m[T("item", el, ZERO)] = P
            m[T("item", el, ONE)] = T("item", src.args[0], P)
        elif src.op == "fn" and src.args[0] == "items" and keyset(src.args[1]) is not None:
            m[T("item", el, ZERO)] = P
            m[T("item", el, ONE)] = T("item", src.args[1], P)
        else:
            return None
    return subst(t, m)


def check(rep):
    rep.rule("refused", "reports about different players are refused, all others are combined")
    rep.rule("earlier", "time, point and normal are those of the earlier report")
    rep.rule("players", "the result has an entry for each player and no other")
    rep.rule("history", "each player's entry: velocity before from the earlier, velocity after from the later, locations of both in order, energy summed, fault and footprint of the first impact")
    rep.rule("pure", "the reports combined are not changed")
    ix = rep.ix
    fi = ix.func("combine_collision_reports")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    ip, st = Interp(ix), State()
    cq, pq = ix.cls("CollisionReport").qual, ix.cls("CollisionReportPlayer").qual
    for r in (A, B):
        ip.types[r] = Ty(cq)
        ip.exact.add(r)
    ps = [a.arg for a in fi.node.args.args]
    res = ip.run(fi, dict(zip(ps, (A, B))), st=st)
    rep.saw(res)
    # refused exactly if the players differ
    bad = FALSE
    for o in ip.raises:
        bad = lor(bad, same(o.st.pc))
    rep.equiv("refused", "combine_collision_reports", Norm(), bad, lnot(SAME), w)
    E = Effects(Scan(ix))
    mut = [(t, x) for t, x in E.mut.get(fi.qual, {}).items()]
    rep.ob("pure", "combine_collision_reports", not mut, f"changes {mut and mut[0][0][1]}: {mut and mut[0][1][0][1]}", w)
    val = ip.freeze(res.value, res.state)
    ta, tb = T("attr", A, "at_time"), T("attr", B, "at_time")
    for name, e, l, lt in (("in order", A, B, T("cmp", "lt", ta, tb)), ("reversed", B, A, T("cmp", "lt", tb, ta))):
        N = Norm(assume=[lt])
        gt = T("cmp", "lt", *reversed(lt.args[1:]))

        ident = {T("cmp", "is", A, B): FALSE, T("cmp", "is", B, A): FALSE}
        v = subst(val, {**ident, lt: TRUE, gt: FALSE, T("cmp", "eq", ta, tb): FALSE, T("cmp", "eq", tb, ta): FALSE, SAME: TRUE})

        for f in ("at_time", "impact_point", "impact_normal"):
            rep.eq("earlier", f"{f} ({name})", N, rec_field(v, f), T("attr", e, f), w)
        pl = rec_field(v, "players")
        gens = generators(pl) if pl is not None else []
        # last write of one key wins: an accumulation has one generator here
        ok = len(gens) == 1 and len(gens[0]) == 3 and gens[0][2].op == "tuple" and len(gens[0][2].args) == 2 and len(gens[0][0]) >= 1
        g = entry(gens[0][2], gens[0][0]) if ok else None
        c = same(entry(gens[0][1], gens[0][0])) if g is not None else None
        rep.ob("players", name, g is not None and g.args[0] == P and subst(c, {SAME: TRUE}) == TRUE,
               f"entries {[show(x[2])[:120] if x[2] is not None else show(x[3])[:120] for x in gens]} under {show(c)[:80] if c is not None else ''}", w)
        if g is None:
            continue
        rec = g.args[1]
        pe, pl_ = T("item", PL[e], P), T("item", PL[l], P)
        at = lambda o, n: T("attr", o, n)
        want = {"velocity": at(pe, "velocity"), "velocity_after": at(pl_, "velocity_after"),
                "locations": T("concat", at(pe, "locations"), at(pl_, "locations")),
                "energy_delta": T("add", at(pe, "energy_delta"), at(pl_, "energy_delta")),
                "at_fault": at(pe, "at_fault"), "footprint": at(pe, "footprint")}
        for f, _, _, _ in ix.dc_fields(pq):
            got = rec_field(rec, f)
            if f == "locations":
                rep.ob("history", f"{f} ({name})", parts(got) == [at(pe, f), at(pl_, f)], f"locations are {show(got)[:200] if got is not None else None}", w)
            elif f in want:
                rep.eq("history", f"{f} ({name})", N, got, want[f], w)
            else:
                rep.ob("history", f, False, f"the field {f} has no rule", w)


def parts(t):
    """a concatenation of lists, in order."""
    if t is None:
        return []
    if t.op == "add" or t.op == "concat":
        return [y for x in t.args for y in parts(x)]
    if t.op == "list":
        return [y for x in t.args for y in (parts(x.args[0]) if x.op in ("spread", "star") else [x])]
    if t.op == "fn" and t.args[0] in ("list", "tuple") and len(t.args) == 2:
        return parts(t.args[1])
    return [t]
