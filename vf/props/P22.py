"""Value-flow analysis of the operations that derive sequences, for every length up to a bound, with arbitrary stamps, values and arguments."""
from ..absint import Interp, State
from ..norm import Norm
from ..terms import *
from ..types import Ty
from .P21 import Seqs, lt, increasing, exc

SIZES = ("subsequence", 4)

HALF = const(0.5)


def le(a, b):
    return lnot(lt(b, a))


def fwhere(ix, name):
    fi = ix.func(name)
    return f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"


class Derive(Seqs):
    def start(self, n, q=None, vtype=None):
        self.fresh()
        self.ts, self.vs = self.vec("t", n), [var(f"v{i}") for i in range(n)]
        if vtype:
            for v in self.vs:
                self.ip.types[v] = Ty(vtype)
                self.ip.exact.add(v)
        else:
            self.vec("v", n)
        self.M = Norm(assume=[lt(a, b) for a, b in zip(self.ts, self.ts[1:])])
        self.o = self.seq(self.ts, self.vs, q)
        self.st.pc = TRUE
        self.base = [self.ip.hget(self.st, self.o, k) for k in ("_timestamps", "_values")]
        return self

    def func(self, name, *args, **kw):
        self.st.pc = TRUE
        self.ip.raises = []
        fi = self.ix.func(name)
        return self.ip.call(T("func", fi.qual), args, tuple(sorted(kw.items())), self.st, None)

    def same(self, rule, c, r, ts, vs, w, when=TRUE, total=TRUE, cls=None):
        """the result is a sequence of exactly these samples"""
        rep = self.rep
        rep.holds(rule, f"{c}: succeeds", self.M, self.st.pc, w, land(when, total), f"returns only if {show(self.st.pc)[:200]}")
        for nm, want in (("timestamps", ts), ("values", vs)):
            got = self.ip.freeze(self.ip.getattr(r, nm, self.st), self.st)
            rep.eq(rule, f"{c}: {nm}", self.M, as_tuple(got), T("tuple", *want), w, when)
        qs = {self.ip.clsof(x) for x in branches(r)}
        rep.ob(rule, f"{c}: type", all(q and (cls or self.q) in self.ix.mro(q) for q in qs), f"result is a {qs}", w)
        now = [self.ip.hget(self.st, self.o, k) for k in ("_timestamps", "_values")]
        rep.ob("pure", c, now == self.base, "the original sequence changes", w)


def branches(t):
    return branches(t.args[1]) + branches(t.args[2]) if t.op == "ite" else [t]


def as_tuple(t):
    if t.op == "ite":
        return ite(t.args[0], as_tuple(t.args[1]), as_tuple(t.args[2]))
    return T("tuple", *t.args) if t.op in ("list", "arr") else t


def total(xs):
    r = xs[0]
    for x in xs[1:]:
        r = T("add", r, x)
    return r


def lerp(a, b, f):
    return T("add", a, T("mul", f, T("sub", b, a)))


def check(rep):
    ix = rep.ix
    rep.rule("subsequence", "a subsequence holds exactly the samples in the closed interval")
    rep.rule("shift", "shifting moves every stamp by the same amount and keeps the values")
    rep.rule("transform", "transformed values stay at their own stamps")
    rep.rule("iterate", "iteration yields each pair of consecutive samples with their time difference")
    rep.rule("integrate", "integration is the cumulative trapezoidal rule")
    rep.rule("differentiate", "differentiation is the difference quotient at the midpoint")
    rep.rule("accumulate", "accumulation is the running sum at the same stamps")
    rep.rule("merge", "merging appends the other trajectory without its connecting sample")
    rep.rule("upsample", "upsampling keeps every sample and adds evenly spaced interpolated ones")
    rep.rule("pure", "deriving a sequence leaves the original unchanged")
    D = Derive(rep)
    top = 5 if rep.tier == "thorough" else 4
    qt = ix.cls("Trajectory").qual
    for n in range(top + 1):
        # subsequence
        D.start(n)
        a, b = var("a"), var("b")
        w = D.where("get_subsequence")
        r = D.call(D.o, "get_subsequence", a, b)
        ab = le(a, b)
        ts, vs = D.ts, D.vs
        for i in range(n + 1):
            for j in range(i, n + 1):
                # samples i..j-1 are inside
                cs = [ab]
                cs += [lt(t, a) for t in ts[:i][-1:]]
                cs += [le(a, t) for t in ts[i:i + 1]]
                cs += [lt(b, t) for t in ts[j:j + 1]]
                cs += [le(t, b) for t in ts[:j][-1:]]
                D.same("subsequence", f"{i}:{j} of {n}", r, ts[i:j], vs[i:j], w, land(*cs))
        D.done()
        # shift
        D.start(n)
        w = D.where("shift_timestamps")
        r = D.call(D.o, "shift_timestamps", D.vec("dt", 1)[0])
        D.same("shift", f"{n} samples", r, [T("add", t, var("dt0")) for t in D.ts], D.vs, w)
        D.done()
        # transform: every choice of which values map to None
        for mask in range(2 ** n):
            D.start(n)
            w = D.where("transform_values")
            keep = [i for i in range(n) if mask >> i & 1]
            fv = {D.vs[i]: T("tuple", const("f"), D.vs[i]) for i in keep}
            D.ip.overrides["user.f"] = lambda ip, st, args, kw, node: fv.get(args[0], NONE)
            r = D.call(D.o, "transform_values", T("ext", "user.f"))
            D.same("transform", f"{n} samples, {keep} mapped", r, [D.ts[i] for i in keep], [fv[D.vs[i]] for i in keep], w)
            D.done()
        # iteration
        D.start(n)
        w = fwhere(ix, "iterate_with_dt")
        y0 = len(D.ip.effects)
        r = D.func("iterate_with_dt", D.o)
        c = D.ip.freeze(r, D.st)
        got = list(c.args) if c.op in ("list", "tuple") else None
        rep.ob("iterate", f"{n} samples: count", got is not None and len(got) == max(0, n - 1), f"yields {show(c)[:200]}", w)
        items = D.ip.content(r, D.st) or r
        for i in range(max(0, n - 1) if got is not None else 0):
            e = D.ip.getitem(r, const(i), D.st)
            for k, want in (("t0", D.ts[i]), ("t1", D.ts[i + 1]), ("dt", T("sub", D.ts[i + 1], D.ts[i])), ("v0", D.vs[i]), ("v1", D.vs[i + 1])):
                rep.eq("iterate", f"{n} samples: {k} of {i}", D.M, D.ip.freeze(D.ip.getattr(e, k, D.st), D.st), want, w)
        D.done()
        # integrate / differentiate / accumulate
        for nm in ("seq_integrate", "seq_differentiate", "seq_accumulate"):
            rule = nm[4:]
            D.start(n)
            w = fwhere(ix, nm)
            r = D.func(nm, D.o)
            ts, vs = D.ts, D.vs
            if n == 0 and nm != "seq_accumulate":
                rep.ob(rule, "empty sequence", D.st.pc is FALSE, "gives a result", w)
                D.done()
                continue
            if nm == "seq_accumulate":
                want = ts, [total(vs[:i + 1]) for i in range(n)]
            elif nm == "seq_differentiate":
                want = ([T("add", T("mul", HALF, ts[i]), T("mul", HALF, ts[i + 1])) for i in range(n - 1)],
                        [T("div", T("sub", vs[i + 1], vs[i]), T("sub", ts[i + 1], ts[i])) for i in range(n - 1)])
            else:
                acc, tot = [], ZERO
                for i in range(n - 1):
                    tot = T("add", tot, T("mul", T("mul", HALF, T("add", vs[i], vs[i + 1])), T("sub", ts[i + 1], ts[i])))
                    acc.append(tot)
                want = ts[1:], acc
                if n == 1:
                    want = ts, vs
            D.same(rule, f"{n} samples", r, *want, w)
            D.done()
    # trajectories
    wt = lambda m: (lambda c: f"{c[0].mod.path}:{c[1].lineno} {qt}.{m}")(ix.find_method(qt, m))
    qs = ix.cls("VehicleState").qual
    for n in range(top):
        for m in range(top):
            for nm in ("merge", "merge_unsafe"):
                if m == 0 and nm == "merge_unsafe":
                    continue
                D.start(n, qt, qs)
                us, ws = D.vec("s", m), [var(f"w{i}") for i in range(m)]
                for x in ws:
                    D.ip.types[x] = Ty(qs)
                    D.ip.exact.add(x)
                D.M = Norm(assume=[lt(a, b) for a, b in [*zip(D.ts, D.ts[1:]), *zip(us, us[1:])]])
                other = D.seq(us, ws, qt)
                r = D.call(D.o, nm, other)
                k = 0 if n == 0 else 1
                when = TRUE
                if n and m > 1:
                    when = lt(D.ts[-1], us[1])
                D.same("merge", f"{nm} {n}+{m}", r, D.ts + us[k:], D.vs + ws[k:], wt(nm), when, cls=qt)
                D.done()
    for n in range(1, top):
        for k in range(3):
            D.start(n, qt)
            r = D.call(D.o, "upsample", const(k))
            ts, vs = [], []
            for i in range(n):
                ts.append(D.ts[i])
                vs.append(D.vs[i])
                for j in range(1, k + 1):
                    if i + 1 < n:
                        f = const(0.5) if k == 1 else T("div", const(j), const(k + 1))
                        ts.append(lerp(D.ts[i], D.ts[i + 1], f))
                        vs.append(lerp(D.vs[i], D.vs[i + 1], f))
            D.same("upsample", f"{n} samples, {k} more each", r, ts, vs, wt("upsample"), cls=qt)
            D.done()
