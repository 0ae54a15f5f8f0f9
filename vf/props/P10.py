"""Value-flow analysis of the wrapper sensors over sequences of calls with arbitrary observations and times."""
import ast
from ..absint import Interp, State
from ..norm import Norm
from ..sizes import check_sizes
from ..terms import *
from ..types import Ty
from ..simx import bindargs

OBS = ("players", "time")


class Wrap:
    def __init__(self, rep, cls):
        self.rep, self.ix = rep, rep.ix
        self.calls = []
        self.qo = rep.ix.cls("SimObservations").qual
        self.base = rep.ix.cls("ObsFilter").qual
        fi = rep.ix.method("ObsFilter", "sense")
        self.inner = var("inner")

        def sense(ip, st, args, kwargs, node):
            b = bindargs(fi, args[1:] if args and args[0] is self.inner else args, kwargs)
            i = len(self.calls)
            self.calls.append((args[0] if args else None, b, st.pc, len(ip.loops)))
            return self.ip.instantiate(self.qo, (), (("players", self.players(i)), ("time", var(f"t{i}"))), st, None)
        self.ip = Interp(rep.ix, overrides={self.base + ".sense": sense})
        self.ip.types[self.inner] = Ty(self.base)
        self.st = State()
        self.q = rep.ix.cls(cls).qual
        for i in range(6):
            self.ip.types[var(f"t{i}")] = Ty("decimal.Decimal")

    def players(self, i):
        p = var(f"P{i}")
        self.ip.types[p] = Ty("Mapping", [Ty("str"), Ty(self.ix.cls("PlayerObservations").qual)])
        return p

    def make(self, **kw):
        self.o = self.ip.instantiate(self.q, (self.inner,), tuple(sorted(kw.items())), self.st, None)
        self.st.pc = TRUE
        return self

    def sense(self, i):
        a = {"scenario": var("scenario"), "full_obs": var(f"obs{i}"), "pov": var("pov")}
        self.ip.types[a["full_obs"]] = Ty(self.qo)
        self.args = a
        self.st.pc = TRUE
        self.ip.raises = []
        r = self.ip.call(self.ip.getattr(self.o, "sense", self.st), (a["scenario"], a["full_obs"], a["pov"]), (), self.st, None)
        return {k: self.ip.freeze(self.ip.getattr(r, k, self.st), self.st) for k in OBS}

    def where(self):
        c, f = self.ix.find_method(self.q, "sense")
        return f"{c.mod.path}:{f.lineno} {c.qual}.sense"

    def through(self, rule, i, n):
        rep = self.rep
        if not rep.ob(rule, f"{n} senses once", len(self.calls) == i + 1 and self.calls[-1][3] == 0 and self.calls[-1][2] is TRUE,
                      f"the wrapped sensor is used {len(self.calls) - i} times per call (or not always)", self.where()):
            return False
        recv, b, _, _ = self.calls[-1]
        return rep.ob(rule, f"{n} passes on", recv is self.inner and all(b.get(k) is v for k, v in self.args.items()),
                      f"the wrapped sensor is asked for {{{', '.join(k + ': ' + show(v, 0, 3) for k, v in b.items())}}}", self.where())


def check(rep):
    rep.rule("wrapped", "a wrapper senses through its own sensor once per call with the same scenario, observation and observer")
    rep.rule("delay", "a delayed sensor returns, re-stamped, the earliest observation whose delayed time has not passed yet")
    rep.rule("ghost", "exactly the ghost is hidden, from others only, if and only if it is further than the given distance")
    delay(rep)
    ghost(rep)


def delay(rep):
    top = 6 if rep.tier == "thorough" else 4
    W = Wrap(rep, "DelayedObsFilter")
    L = var("latency")
    W.ip.types[L] = Ty("decimal.Decimal")
    W.make(latency=L)
    ts = [var(f"t{i}") for i in range(top)]
    for i in range(top):
        r = W.sense(i)
        w = W.where()
        if not W.through("wrapped", i, f"delayed sensor, call {i + 1},"):
            return
        N = Norm(assume=[T("cmp", "lt", a, b) for a, b in zip(ts[:i + 1], ts[1:i + 1])] + [lnot(T("cmp", "lt", L, ZERO))])
        stamp = [T("add", t, L) for t in ts]
        want = {"players": var(f"P{i}"), "time": stamp[i]}
        for j in reversed(range(i)):
            late = T("cmp", "lt", stamp[j], ts[i])
            want = {"players": ite(late, want["players"], var(f"P{j}")), "time": ite(late, want["time"], stamp[j])}
        for k in OBS:
            rep.eq("delay", f"call {i + 1}: {k}", N, r[k], want[k], w)
        rep.holds("delay", f"call {i + 1}: returns", N, W.st.pc, w, what="returning normally")
    check_sizes(rep, "delay", {q for q, f in rep.ix.funcs.items() if f.cls == W.q or getattr(f.cls, 'qual', None) == W.q}, top)
    rep.saw_ip(W.ip) if hasattr(rep, "saw_ip") else rep.funcs.update(W.ip.visited)



def ghost(rep):
    W = Wrap(rep, "GhostObsFilter")
    G, D = var("ghost"), var("distance")
    W.make(ghost_name=G, further_than=D)
    r = W.sense(0)
    if not W.through("wrapped", 0, "ghosting sensor"):
        return
    w = W.where()
    P, pov = var("P0"), var("pov")
    x, y = ([T("attr", T("attr", T("item", P, p), "state"), c) for p in (pov, G)] for c in "xy")
    sq = T("add", *[T("mul", T("sub", a[0], a[1]), T("sub", a[0], a[1])) for a in (x, y)])
    far = T("cmp", "lt", D, T("fn", "sqrt", sq))
    N = Norm(assume=[lnot(T("cmp", "lt", D, ZERO)), lnot(T("cmp", "is", *sorted((NONE, T("item", P, G)), key=id)))])
    present = T("cmp", "in", G, P)
    hide = land(lnot(T("cmp", "eq", pov, G)), present, far)
    rep.eq("ghost", "time", N, r["time"], var("t0"), w)
    # a mapping of observations never holds None
    got = subst(r["players"], {x: ite(T("cmp", "in", x.args[2][0], P), T("item", P, x.args[2][0]), x.args[2][1])
                               for x in subterms(r["players"]) if x.op == "mcall" and x.args[0] is P and x.args[1] == "get" and len(x.args[2]) == 2})
    got = without(got, P, G)
    rep.eq("ghost", "players", N, got, ite(hide, T("fn", "without", P, G), P), w)
    rep.funcs.update(W.ip.visited)


def without(t, P, G):
    """mappings with one key taken out, however written"""
    def f(x):
        if x.op == "mcall" and x.args[1] == "delete" and x.args[2] == (G,):
            return T("fn", "without", x.args[0], G)
        if x.op == "fn" and x.args[0] in ("frozendict", "fd", "dict") and len(x.args) == 2 and x.args[1].op == "fn" and x.args[1].args[0] == "without":
            return x.args[1]
        if x.op == "comp" and x.args[0] == "dict":
            _, d, it, c, kv = x.args
            e = T("elem", it, d)
            k, v = kv.args if isinstance(kv, T) else kv
            if it is P and k is e and v is T("item", P, e) and c is lnot(T("cmp", "eq", *sorted((e, G), key=id))):
                return T("fn", "without", P, G)
            if it is P and k is e and v is T("item", P, e) and Norm().equiv(c, lnot(T("cmp", "eq", e, G))) is None:
                return T("fn", "without", P, G)
        return x
    return rebuild(t, f)
