"""Value-flow analysis of sequence construction and reading for every length up to a bound, with arbitrary time stamps, values and query times."""
import ast
from ..absint import Interp, State
from ..norm import Norm
from ..terms import *
from ..types import Ty

SIZES = ("store", 4)

KINDS = ("float", "int", "decimal.Decimal")


def lt(a, b):
    return T("cmp", "lt", a, b)


class Seqs:
    """Sequences of concrete length with symbolic content."""

    def __init__(self, rep):
        self.rep, self.ix = rep, rep.ix
        self.q = rep.ix.cls("DgSampledSequence").qual
        self.qb = rep.ix.cls("DgSampledSequenceBuilder").qual

    def fresh(self):
        self.ip, self.st = Interp(self.ix), State()
        return self

    def done(self):
        self.rep.funcs |= self.ip.visited
        self.rep.notes += self.ip.notes

    def vec(self, p, n, kinds=None):
        vs = [var(f"{p}{i}") for i in range(n)]
        for v, k in zip(vs, kinds or ["float"] * n):
            self.ip.types[v] = Ty(k)
            self.ip.exact.add(v)
        return vs

    def lst(self, xs):
        """a mutable list the caller keeps"""
        r = self.ip.new_ref("#list")
        self.st.heap[(r, "#v")] = T("list", *xs)
        return r

    def seq(self, ts, vs, q=None, lists=False):
        w = self.lst if lists else lambda xs: T("tuple", *xs)
        return self.ip.instantiate(q or self.q, (w(ts), w(vs)), (), self.st, None)

    def read(self, o, *names):
        return [self.ip.freeze(self.ip.getattr(o, n, self.st), self.st) for n in names]

    def items(self, o, name):
        v = self.read(o, name)[0]
        return list(v.args) if v.op in ("tuple", "list", "arr") else None

    def call(self, o, name, *args, **kw):
        self.st.pc = TRUE
        self.ip.raises = []
        return self.ip.call(self.ip.getattr(o, name, self.st), args, tuple(sorted(kw.items())), self.st, None)

    def where(self, name):
        c, f = self.ix.find_method(self.q, name)
        return f"{c.mod.path}:{f.lineno} {c.qual}.{name}"


def increasing(ts):
    return land(*[lt(a, b) for a, b in zip(ts, ts[1:])])


def check(rep):
    rep.rule("accept", "construction succeeds exactly for equally many, strictly increasing, compatible, real time stamps")
    rep.rule("store", "the sequence keeps its own immutable copy of stamps and values in the given order")
    rep.rule("immutable", "time stamps and values of a sequence are never replaced")
    rep.rule("at", "at returns the sample at exactly the requested time and fails otherwise")
    rep.rule("previous", "at_or_previous returns the latest sample not later than the requested time and fails before the first")
    rep.rule("interp", "at_interp interpolates linearly between neighbours and holds outside")
    rep.rule("ends", "start, end and length are those of the samples")
    rep.rule("builder", "a builder refuses stamps that do not increase, unchanged, and appends all others")
    S = Seqs(rep)
    N = Norm()
    top = 6 if rep.tier == "thorough" else 4
    wpi = S.where("__post_init__" if S.ix.find_method(S.q, "__post_init__") else "__init__")
    # construction
    for n in range(top + 1):
        for m in range(top + 1):
            if abs(n - m) > 1:
                continue
            S.fresh()
            ts, vs = S.vec("t", n), S.vec("v", m)
            o = S.seq(ts, vs, lists=True)
            rep.equiv("accept", f"{n} stamps, {m} values", N, S.st.pc, increasing(ts) if n == m else FALSE, wpi)
            if n == m:
                a, b = (S.ip.hget(S.st, o, k) for k in storage(S))
                ok = all(isinstance(x, T) and x.op == "tuple" for x in (a, b))
                rep.ob("store", f"length {n}", ok and list(a.args) == ts and list(b.args) == vs, f"kept as {show(a)[:80] if a is not None else None} / {show(b)[:80] if b is not None else None}", wpi)
                for nm, want in (("timestamps", ts), ("values", vs)):
                    rep.ob("store", f"length {n} {nm}", S.items(o, nm) == want, f"{nm} reads {show(S.read(o, nm)[0])[:100]}", wpi)
                rep.ob("store", f"length {n} sampling points", [*S.ip.freeze(S.call(o, "get_sampling_points"), S.st).args] == ts, "differs from the stamps", wpi)
                ln = S.call(o, "__len__")
                rep.ob("ends", f"length {n}", ln is const(n), f"len is {show(ln)[:100]}", wpi)
            S.done()
    for n in (1, 2, 3):
        for i in range(n):
            for bad in ("str", "complex"):
                S.fresh()
                ks = ["float"] * n
                ks[i] = bad
                S.seq(S.vec("t", n, ks), S.vec("v", n))
                rep.ob("accept", f"{bad} stamp at {i} of {n}", S.st.pc is FALSE, f"accepted if {show(S.st.pc)[:200]}", wpi)
                S.done()
    for a in KINDS:
        S.fresh()
        S.seq(S.vec("t", 1, [a]), S.vec("v", 1))
        rep.ob("accept", f"a {a} stamp", S.st.pc is TRUE, f"accepted only if {show(S.st.pc)[:200]}", wpi)
        for b in KINDS:
            for c in KINDS:
                S.fresh()
                ts = S.vec("t", 3, [a, b, c])
                S.seq(ts, S.vec("v", 3))
                mixed = 0 < (a, b, c).count("decimal.Decimal") < 3
                rep.equiv("accept", f"stamps {a}, {b}, {c}", N, S.st.pc, FALSE if mixed else increasing(ts), wpi)
                S.done()
    # no way to change it
    for nm in ("timestamps", "values"):
        S.fresh()
        o = S.seq(S.vec("t", 2), S.vec("v", 2))
        S.st.pc = TRUE
        before = dict(S.st.heap)
        S.ip.setattr(o, nm, T("tuple", var("x"), var("y")), S.st, None)
        rep.ob("immutable", f"set {nm}", S.st.pc is FALSE, f"assignment succeeds if {show(S.st.pc)[:200]}", S.where("timestamps"))
        S.done()
    stores(rep, S)
    # reading
    for n in range(1, top + 1):
        for nm in ("at", "at_or_previous", "at_interp", "get_start", "get_end"):
            S.fresh()
            ts, vs, t = S.vec("t", n), S.vec("v", n), var("t")
            o = S.seq(ts, vs)
            M = Norm(assume=[lt(a, b) for a, b in zip(ts, ts[1:])])
            before = S.read(o, *storage(S))
            r = S.call(o, nm, *([t] if nm.startswith("at") else []))
            v = S.ip.freeze(r, S.st)
            w = S.where(nm)
            c = f"{nm} of {n} samples"
            pc = S.st.pc
            rep.ob("immutable", c, S.read(o, *storage(S)) == before, "reading changes the sequence", w)
            if nm == "at":
                hit = lor(*[T("cmp", "eq", *sorted((x, t), key=lambda z: z.uid)) for x in ts])
                rep.equiv("at", c, M, pc, hit, w)
                for x, y in zip(ts, vs):
                    rep.eq("at", f"{c} at {show(x)}", M, subst(v, {t: x}), y, w)
            elif nm == "at_or_previous":
                rep.equiv("previous", c, M, pc, lnot(lt(t, ts[0])), w)
                for i in range(n):
                    when = land(lnot(lt(t, ts[i])), lt(t, ts[i + 1]) if i + 1 < n else TRUE)
                    rep.eq("previous", f"{c} in [{i}]", M, v, vs[i], w, when)
            elif nm == "at_interp":
                rep.ob("interp", f"{c} total", M.equiv(pc, TRUE) is None, f"only if {show(pc)[:200]}", w)
                rep.eq("interp", f"{c} before", M, v, vs[0], w, lnot(lt(ts[0], t)))
                rep.eq("interp", f"{c} after", M, v, vs[-1], w, lnot(lt(t, ts[-1])))
                for i in range(n - 1):
                    f = T("div", T("sub", t, ts[i]), T("sub", ts[i + 1], ts[i]))
                    want = T("add", vs[i], T("mul", f, T("sub", vs[i + 1], vs[i])))
                    rep.eq("interp", f"{c} in [{i}]", M, v, want, w, land(lt(ts[i], t), lt(t, ts[i + 1])))
                    rep.eq("interp", f"{c} at {i}", M, subst(v, {t: ts[i]}), vs[i], w)
            else:
                rep.ob("ends", c, pc is TRUE and v is (ts[0] if nm == "get_start" else ts[-1]), f"{nm} is {show(v)[:100]}", w)
            if nm in ("at", "at_or_previous"):
                names = {exc(o.value) for o in S.ip.raises}
                rep.ob("at" if nm == "at" else "previous", f"{c} failure", names <= {"UndefinedAtTime"}, f"fails with {sorted(names)}", w)
            S.done()
    for nm in ("at", "at_or_previous", "at_interp", "get_start", "get_end"):
        S.fresh()
        o = S.seq([], [])
        S.call(o, nm, *([var("t")] if nm.startswith("at") else []))
        rep.ob("ends", f"{nm} of an empty sequence", S.st.pc is FALSE, "returns something", S.where(nm))
        S.done()
    builder(rep, S, N)
    rep.count("reading cases", sum(1 for r, c, ok in rep.obs if r in ("at", "previous", "interp")), 30)


def exc(v):
    q = v.args[1] if v.op == "ref" else v.args[0] if v.op in ("cls", "ext", "call") and isinstance(v.args[0], str) else "?"
    return q.split(".")[-1]


def storage(S):
    """the attributes in which a sequence keeps its stamps and values"""
    return "_timestamps", "_values"


def stores(rep, S):
    """Nothing but construction assigns to the stored tuples."""
    ix = rep.ix
    n = 0
    fam = {S.q} | set(ix.subclasses(S.q))
    names = set(storage(S))
    own = {"__post_init__", "__init__", "__setstate__"}
    for q, fi in sorted(ix.funcs.items()):
        inside = fi.cls is not None and fi.cls.qual in fam
        for x in ast.walk(fi.node):
            tg = []
            if isinstance(x, ast.Assign):
                tg = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                tg = [x.target]
            elif isinstance(x, ast.Delete):
                tg = x.targets
            elif isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in ("setattr", "__setattr__"):
                a = [y.value for y in x.args if isinstance(y, ast.Constant)]
                if names & set(a) or inside:
                    tg = [None]
            for t in tg:
                for y in [t] if t is None else ast.walk(t):
                    if y is not None and not (isinstance(y, ast.Attribute) and y.attr in names and isinstance(y.ctx, (ast.Store, ast.Del))):
                        continue
                    if y is not None and isinstance(y.value, ast.Name) and y.value.id == "self" and not inside:
                        continue     # another class's own attribute
                    n += 1
                    rep.ob("immutable", f"store in {q}", inside and fi.node.name in own, f"assigns {ast.unparse(x)[:100]}", f"{fi.mod.path}:{x.lineno} {q}")
    rep.counts["stores to the samples"] = n


def builder(rep, S, N):
    w = lambda m: (lambda c: f"{c[0].mod.path}:{c[1].lineno} {c[0].qual}.{m}")(S.ix.find_method(S.qb, m))
    S.fresh()
    a, b = (S.ip.instantiate(S.qb, (), (), S.st, None) for _ in range(2))
    refs = [S.ip.getattr(o, k, S.st) for o in (a, b) for k in ("timestamps", "values")]
    rep.ob("builder", "own lists", len(set(refs)) == 4 and all(r.op == "ref" for r in refs), "builders share a list", w("add"))
    S.done()
    for n in range(4):
        S.fresh()
        ts, vs, t, v = S.vec("t", n), S.vec("v", n), S.vec("next", 1)[0], var("v")
        o = S.ip.instantiate(S.qb, (), (), S.st, None)
        for x, y in zip(ts, vs):
            S.ip.call(S.ip.getattr(o, "add", S.st), (x, y), (), S.st, None)
        rep.equiv("builder", f"filling {n}", N, S.st.pc, increasing(ts), w("add"))
        M = Norm(assume=[lt(a, b) for a, b in zip(ts, ts[1:])])
        S.call(o, "add", t, v)
        rep.equiv("builder", f"adding to {n}", M, S.st.pc, lt(ts[-1], t) if n else TRUE, w("add"))
        if S.st.pc is not FALSE:
            rep.ob("builder", f"appended to {n}", (S.items(o, "timestamps"), S.items(o, "values")) == (ts + [t], vs + [v]), f"content becomes {[show(x)[:100] for x in S.read(o, 'timestamps', 'values')]}", w("add"))
        keep = S.st
        for x in S.ip.raises:
            if x.st.pc is FALSE:
                continue
            S.st = x.st
            rep.ob("builder", f"refusing for {n}", (S.items(o, "timestamps"), S.items(o, "values")) == (ts, vs), f"content becomes {[show(x)[:100] for x in S.read(o, 'timestamps', 'values')]}", w("add"))
        S.st = keep
        ln = S.call(o, "__len__")
        rep.ob("builder", f"length of {n}", ln is const(n + 1), f"len is {show(ln)[:80]}", w("__len__"))
        s = S.call(o, "as_sequence")
        allt = ts + [t]
        rep.equiv("builder", f"as_sequence of {n}", M, S.st.pc, increasing(allt), w("as_sequence"), lt(ts[-1], t) if n else TRUE)
        rep.ob("builder", f"as_sequence content of {n}", S.ip.clsof(s) == S.q and (S.items(s, "timestamps"), S.items(s, "values")) == (allt, vs + [v]), f"sequence is {show(S.ip.freeze(s, S.st))[:200]}", w("as_sequence"))
        S.call(o, "add", S.vec("later", 1)[0], var("w"))
        rep.ob("immutable", f"sequence of {n + 1} after adding more", (S.items(s, "timestamps"), S.items(s, "values")) == (allt, vs + [v]), "the built sequence grows with its builder", w("as_sequence"))
        S.done()
