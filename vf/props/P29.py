"""Symbolic evaluation of the safety metrics over every order of distances and times of a few agents and samples, compared with the extremum they claim to report."""
from ..absint import Interp, State
from ..bounded import LE, LT
from ..calls import guarded_pairs
from ..norm import Norm
from ..terms import *

INF = const(float("inf"))
NINF = const(float("-inf"))
EGO = const("Ego")


def ref_dict(ip, st, items):
    r = ip.new_ref("#dict")
    st.heap[(r, "#v")] = T("dict", *items)
    return r


class Go:
    def __init__(self, rep, name, overrides=None, assume=()):
        self.rep, self.ix = rep, rep.ix
        self.fi = self.ix.func(name, "dg_commons.eval.safety")
        ov = {}
        for k, f in (overrides or {}).items():
            h = self.ix.func(k, "dg_commons.eval.safety") if not k.startswith(".") and "." not in k else None
            ov[h.qual if h else k] = self.named(h, f) if h else f
        self.ip, self.st = Interp(self.ix, overrides=ov), State()
        self.w = f"{self.fi.mod.path}:{self.fi.node.lineno} {self.fi.qual}"
        rep.funcs.add(self.fi.qual)

    @staticmethod
    def named(h, f):
        ps = [a.arg for a in h.node.args.args]

        def g(ip, st, args, kwargs, node):
            d = dict(zip(ps, args))
            d.update(kwargs)
            return f(ip, st, d)
        return g

    def dict(self, *items):
        return ref_dict(self.ip, self.st, items)

    def run(self, **kw):
        self.r = self.ip.run(self.fi, kw, st=self.st)
        self.rep.saw(self.r)
        v = self.ip.freeze(self.r.value, self.r.state)
        return v


def parts(v, n):
    """the components of a tuple that may depend on conditions"""
    if v.op == "tuple" and len(v.args) == n:
        return list(v.args)
    if v.op == "ite":
        a, b = parts(v.args[1], n), parts(v.args[2], n)
        if a and b:
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
    return None


def extremum(N, got, cands, least, neutral):
    """description of a case where `got` (value, owner, ...) is not the extremum of the candidates
    (condition, value, owner, ...) whose condition holds, or not the neutral element if there are none."""
    def f(cx):
        live = [c for c in cands if N.truth(c[0], cx)]
        if not live:
            return all(N.same(g, x, cx) is None for g, x in zip(got, neutral)) or "nothing to consider, but a value is reported"
        for c in live:
            if N.truth(LT(c[1], got[0]) if least else LT(got[0], c[1]), cx):
                return f"not the {'least' if least else 'greatest'}: {show(c[1])} is {'below' if least else 'above'}"
        # who: one of those that attain it
        for c in live:
            if N.same(got[0], c[1], cx) is None and all(N.same(g, x, cx) is None for g, x in zip(got[1:], c[2:])):
                return True
        # an infinite value may be reported without an owner
        if any(c[1] is INF for c in live) and all(N.same(g, x, cx) is None for g, x in zip(got, neutral)):
            return True
        return "value and owner do not belong together"
    for cx, v in N.each(f):
        if v is not True:
            return {"case": cx.log, "what": v}
    return None


def check(rep):
    rep.rule("over time", "the extremum over all logged times in the closed range is reported with its agent and time")
    rep.rule("over agents", "the extremum over all other active agents is reported with its agent")
    rep.rule("finished", "exactly the players whose mission is fulfilled at that time are left out")
    rep.rule("distance", "the distance is the one between the two footprints, each at its own pose")
    rep.rule("considered", "an agent is left out of the time to collision only if it moves away or the centres need more than five seconds to meet")
    rep.rule("deceleration", "the required deceleration is the one that stops the ego within its distance to collision")
    rep.rule("collision time", "the time to collision is the first one at which the footprints, moving on with constant velocity, touch; infinite beyond the horizon")
    rep.rule("involved", "the ego has collided exactly if a report names it")
    over_time(rep)
    over_agents(rep)
    finished(rep)
    distance(rep)
    decelerate(rep)
    moving(rep)
    involved(rep)


def over_time(rep):
    ix = rep.ix
    n = 2 if rep.tier == "quick" else 3
    ts = [var(f"t{i}") for i in range(n)]
    stamps = ix.method("DgSampledSequence", "timestamps")
    F = lambda s, t: T("fn", s, t)
    for name, inner, specs in (("get_min_dist", "get_min_dist_at_t", [(0, 3, "D", "A", True)]),
                               ("get_min_ttc_max_drac", "get_ttc_drac_at_t", [(0, 3, "D", "A", True), (3, 6, "E", "B", False)])):
        for lo in (NONE, var("lo")):
            for hi in (NONE, var("hi")):
                calls = []

                def at(ip, st, d):
                    t = ip.freeze(d["t"], st)
                    calls.append({k: ip.freeze(v, st) for k, v in d.items()})
                    return T("tuple", *[F(s, t) for s in ("DA" if inner == "get_min_dist_at_t" else "DAEB")])
                own = T("attr", T("item", var("logs"), var("ego")), "states")
                bad = []

                def times(ip, st, args, kwargs, node):
                    if ip.freeze(args[0], st) not in (own,):
                        bad.append(show(args[0]))
                    return T("tuple", *ts)
                g = Go(rep, name, {inner: at})
                g.ip.overrides[stamps.qual] = times
                args = {"logs": var("logs"), "models": var("models"), "missions": var("missions"), "ego_name": var("ego"), "t_range": T("tuple", lo, hi)}
                tag = f"{name} from {show(lo)} to {show(hi)}"
                try:
                    from ..types import Ty
                    g.ip.types[own] = Ty(ix.cls("DgSampledSequence").qual)
                except Exception:
                    pass
                v = g.run(**args)
                rep.ob("over time", f"{tag} times", not bad, f"the times of {bad[:2]} are used", g.w)
                p = parts(v, 3 * len(specs))
                if not rep.ob("over time", f"{tag} shape", p is not None, f"returns {show(v)[:200]}", g.w):
                    continue
                rep.ob("over time", f"{tag} arguments", bool(calls) and all(c.get(k) is args[k] for c in calls for k in ("logs", "models", "missions", "ego_name")) and {c["t"] for c in calls} == set(ts),
                       f"evaluated at {[show(c['t']) for c in calls][:4]}", g.w)
                N = Norm(assume=[lnot(T("cmp", "is", *x)) for b in (lo, hi) if b is not NONE for x in ((NONE, b), (b, NONE))] + [LT(a, b) for a, b in zip(ts, ts[1:])] + ([LE(lo, hi)] if lo is not NONE and hi is not NONE else []))
                for a, b, val, who, least in specs:
                    cands = [(land(*([LE(lo, t)] if lo is not NONE else []), *([LE(t, hi)] if hi is not NONE else [])), F(val, t), F(who, t), t) for t in ts]
                    d = extremum(N, p[a:b], cands, least, (INF if least else NINF, NONE, NONE))
                    rep.ob("over time", f"{tag} {'least' if least else 'greatest'}", d is None, d and f"{d['what']} in case {d['case'][:8]}", g.w)


def entries(g, order):
    return g.dict(*[(const(n), var("log_" + n)) for n in order])


def pair(d, ip, st):
    """which two agents a pairwise measure was asked about"""
    v = {k: ip.freeze(x, st) for k, x in d.items()}
    out = []
    for k in "12":
        s, m = v.get("state" + k), v.get("model" + k)
        n = s.args[0].args[0] if s is not None and s.op == "attr" and s.args[1] == "state" and s.args[0].op == "var" else None
        if n is None or m is not var("model_" + n[4:]):
            return None
        out.append(n[4:])
    return out


def agents_setup(rep, name, overrides, order):
    ix = rep.ix
    state = {"bad": [], "t": var("t")}

    def left(ip, st, d):
        if not (ip.freeze(d["log_at_t"], st) is T("fn", "log at", var("t")) and d["missions"] is var("missions") and d["t"] is var("t")):
            state["bad"].append({k: show(ip.freeze(x, st)) for k, x in d.items()})
        return ref_dict(ip, st, [(const(n), var("log_" + n)) for n in order])
    ov = dict(overrides)
    ov["_remove_finished_players"] = left
    ov[".at_interp"] = lambda ip, st, args, kwargs, node: T("fn", "log at", ip.freeze((list(args[1:]) + [x for _, x in kwargs])[0], st))
    g = Go(rep, name, ov)
    at = ix.method("SimLog", "at_interp")
    g.ip.overrides[at.qual] = ov[".at_interp"]
    g.args = dict(logs=var("logs"), models=g.dict(*[(const(n), var("model_" + n)) for n in ("Ego", "A", "B", "Z")]), missions=var("missions"), t=var("t"), ego_name=EGO)
    return g, state


def over_agents(rep):
    for order in (("Ego", "A", "B"), ("A", "Ego", "B"), ("Ego",), ("A", "B"), ()):
        tag = "+".join(order) or "nobody"
        wrong = []

        def dist(ip, st, d):
            p = pair(d, ip, st)
            if p is None or "Ego" not in p or p[0] == p[1]:
                wrong.append(str(p))
                return T("tuple", var("wrong"), var("points"))
            o = [x for x in p if x != "Ego"][0]
            return T("tuple", T("fn", "D", const(o)), var("points"))
        g, state = agents_setup(rep, "get_min_dist_at_t", {"_get_dist": dist}, order)
        v = g.run(**g.args)
        rep.ob("over agents", f"get_min_dist_at_t {tag} active", not state["bad"], f"finished players judged by {state['bad'][:1]}", g.w)
        rep.ob("over agents", f"get_min_dist_at_t {tag} pairs", not wrong, f"distance between {wrong[:2]}", g.w)
        p = parts(v, 2)
        if rep.ob("over agents", f"get_min_dist_at_t {tag} shape", p is not None, f"returns {show(v)[:200]}", g.w):
            others = [n for n in order if n != "Ego"] if "Ego" in order else []
            d = extremum(Norm(), p, [(TRUE, T("fn", "D", const(n)), const(n)) for n in others], True, (INF, NONE))
            rep.ob("over agents", f"get_min_dist_at_t {tag}", d is None, d and f"{d['what']} in case {d['case'][:8]}", g.w)


def entry(v, k):
    """(condition that key k is in the dictionary, its value there)"""
    if v.op == "ite":
        (a, x), (b, y) = entry(v.args[1], k), entry(v.args[2], k)
        return lor(land(v.args[0], a), land(lnot(v.args[0]), b)), x if y is x else ite(v.args[0], x, y)
    if v.op == "dset":
        if v.args[1] is k:
            return TRUE, v.args[2]
        if v.args[1].op == "const":
            return entry(v.args[0], k)
    if v.op == "dict" and all(kk.op == "const" for kk, _ in v.args):
        for kk, x in v.args:
            if kk is k:
                return TRUE, x
        return FALSE, NONE
    if v.op == "ddel" and v.args[1].op == "const":
        return (FALSE, NONE) if v.args[1] is k else entry(v.args[0], k)
    ps = guarded_pairs(v)
    if ps is not None:
        c, x = FALSE, NONE
        for g, kk, y in ps:
            if kk is k:
                c, x = lor(c, g), ite(g, y, x) if c is not FALSE else y
        return c, x
    return T("fn", "unknown"), v


def finished(rep):
    for order in (("Ego", "A"), ("A", "B", "Ego")):
        for who in ((), ("A",), ("Ego", "A", "B"), ("B",)):
            g = Go(rep, "_remove_finished_players")
            seen = []

            def done(ip, st, args, kwargs, node):
                m = ip.freeze(args[0], st)
                d = dict(zip(("state", "at"), args[1:]))
                d.update(kwargs)
                seen.append((m, ip.freeze(d.get("state", NONE), st), ip.freeze(d.get("at", NONE), st)))
                return T("fn", "done", m)
            g.ip.overrides[".is_fulfilled"] = done
            v = g.run(log_at_t=entries(g, order), missions=g.dict(*[(const(n), var("goal_" + n)) for n in who]), t=var("t"))
            tag = f"{'+'.join(order)} missions {'+'.join(who) or 'none'}"
            N = Norm(assume=[lnot(T("cmp", "is", *x)) for m in who for x in ((NONE, var("goal_" + m)), (var("goal_" + m), NONE))])
            for n in order:
                isin, got = entry(v, const(n))
                want = lnot(T("fn", "done", var("goal_" + n))) if n in who else TRUE
                rep.equiv("finished", f"{tag}: {n} kept", N, isin, want, g.w)
                rep.eq("finished", f"{tag}: {n} entry", N, got, var("log_" + n), g.w, want)
            bad = [x for x in seen if not (x[0].op == "var" and x[1] is T("attr", var("log_" + x[0].args[0][5:]), "state") and x[2] is var("t"))]
            rep.ob("finished", f"{tag} judged", not bad, f"goal judged by {[show(y) for x in bad[:1] for y in x]}", g.w)


def outline(k):
    s, m = var(f"state{k}"), var(f"model{k}")
    a = lambda n: T("attr", s, n)
    c, sn = T("fn", "cos", a("psi")), T("fn", "sin", a("psi"))
    return T("attr", T("attr", m, "model_geometry"), "outline_as_polygon"), [c, T("neg", sn), sn, c, a("x"), a("y")]


def is_outline(N, t, k):
    g, m = outline(k)
    return t.op == "fn" and t.args[0] == "affine" and t.args[1] is g and all(N.diff(a, b) is None for a, b in zip(t.args[2:], m))


def distance(rep):
    N = Norm()
    g = Go(rep, "_get_dist")
    v = g.run()
    ok = v.op == "tuple" and len(v.args) == 2
    d = v.args[0] if ok else v

    def which(t):
        for k in (1, 2):
            if is_outline(N, t, k):
                return k
        return None
    polys = {x: which(x) for x in subterms(d) if x.op == "fn" and x.args[0] == "affine"}
    d2 = subst(d, {x: var(f"poly{k}") for x, k in polys.items() if k})
    p1, p2 = var("poly1"), var("poly2")

    def near(t):
        if t.op == "call" and t.args[0].endswith("nearest_points") and set(t.args[1]) == {p1, p2}:
            return True
        return False
    ok2 = False
    if d2.op == "call" and d2.args[0].endswith("distance") or d2.op == "mcall" and d2.args[1] == "distance":
        xs = list(d2.args[1]) if d2.op == "call" else [d2.args[0]] + list(d2.args[2])
        ok2 = set(xs) == {p1, p2} or len(xs) == 2 and all(x.op == "item" and near(x.args[0]) for x in xs) and {x.args[1] for x in xs} == {ZERO, ONE}
    rep.ob("distance", "_get_dist", ok and ok2, f"distance is {show(d2)[:300]}", g.w)
    # the time to collision is asked about the same footprints and states
    seen = []

    def tt(ip, st, d):
        seen.append({k: ip.freeze(x, st) for k, x in d.items()})
        return T("tuple", *[var(x) for x in ("ttc", "dtc1", "dtc2")])
    g = Go(rep, "_get_ttc", {"_get_ttc_of_poly_and_state": tt})
    v = g.run()
    ok = len(seen) == 1
    if rep.ob("distance", "_get_ttc asks once", ok, f"asks {len(seen)} times", g.w):
        s = seen[0]
        ks = [1 if s["state1"] is var("state1") else 2, 1 if s["state2"] is var("state1") else 2]
        ok = set(ks) == {1, 2} and s["state1"] is var(f"state{ks[0]}") and s["state2"] is var(f"state{ks[1]}") and is_outline(N, s["poly1"], ks[0]) and is_outline(N, s["poly2"], ks[1])
        rep.ob("distance", "_get_ttc footprints", ok, f"asks about {[show(x)[:120] for x in s.values()]}", g.w)
        want = [var("ttc"), var("dtc1"), var("dtc2")] if ks == [1, 2] else [var("ttc"), var("dtc2"), var("dtc1")]
        p = parts(v, 3)
        rep.ob("distance", "_get_ttc result", p == want, f"returns {show(v)[:200]}", g.w)


def decelerate(rep):
    for order in (("Ego", "A"), ("A", "Ego", "B"), ("A",)) if rep.tier == "quick" else (("Ego", "A"), ("A", "Ego", "B"), ("Ego", "A", "B"), ("A",), ("Ego",)):
        tag = "+".join(order)
        wrong, asked = [], {}

        def ttc(ip, st, d):
            p = pair(d, ip, st)
            if p is None or "Ego" not in p or p[0] == p[1]:
                wrong.append(str(p))
                return T("tuple", var("wrong"), var("wrong"), var("wrong"))
            o = [x for x in p if x != "Ego"][0]
            asked[o] = st.pc
            r = [T("fn", "ttc", const(o)), T("fn", "dtc", const(o)), T("fn", "dtc other", const(o))]
            return T("tuple", *(r if p[0] == "Ego" else [r[0], r[2], r[1]]))
        g, state = agents_setup(rep, "get_ttc_drac_at_t", {"_get_ttc": ttc}, order)
        v = g.run(**g.args)
        rep.ob("over agents", f"get_ttc_drac_at_t {tag} active", not state["bad"], f"finished players judged by {state['bad'][:1]}", g.w)
        rep.ob("over agents", f"get_ttc_drac_at_t {tag} pairs", not wrong, f"time to collision between {wrong[:2]}", g.w)
        p = parts(v, 4)
        if not rep.ob("over agents", f"get_ttc_drac_at_t {tag} shape", p is not None, f"returns {show(v)[:200]}", g.w):
            continue
        others = [n for n in order if n != "Ego"] if "Ego" in order else []
        rep.ob("considered", f"{tag} asked", set(asked) == set(others), f"asked about {sorted(asked)}", g.w)
        at = lambda n, a: T("attr", T("attr", var("log_" + n), "state"), a)
        sq = lambda t: T("mul", t, t)
        vel = lambda n: [T("mul", at(n, "vx"), T("fn", f, at(n, "psi"))) for f in ("cos", "sin")]
        flags = {}
        N0 = Norm()
        for n in others:
            if n not in asked:
                continue
            pc = asked[n]
            # the agent is `d` away from the ego in direction `b`
            d, b = var("d"), var("b")
            where = {at(n, a): T("add", at("Ego", a), T("mul", d, T("fn", f, b))) for a, f in (("x", "cos"), ("y", "sin"))}
            dv = [T("sub", a, b) for a, b in zip(vel(n), vel("Ego"))]
            rate = T("add", T("mul", dv[0], T("fn", "cos", b)), T("mul", dv[1], T("fn", "sin", b)))
            # closing, and the centres meet within five seconds
            want = land(LT(rate, ZERO), LE(d, T("mul", const(-5), rate)))
            N = Norm(assume=[LT(ZERO, d)])
            own = [c for c in conjuncts(pc) if contains(c, lambda x, n=n: x is var("log_" + n))]
            # what the other agents decide does not matter for this one
            rest = [c for c in conjuncts(pc) if c not in own]
            atoms = {}

            def opaque(x):
                return atoms.setdefault(x, var(f"atom{len(atoms)}")) if x.op == "cmp" else x
            rep.ob("considered", f"{tag}: {n} on its own", all(N0.fails(rebuild(c, opaque)) is None for c in rest), f"{n} is considered only if {[show(c)[:100] for c in rest[:2]]}", g.w)
            rep.equiv("considered", f"{tag}: {n}", N, subst(land(*own), where), want, g.w, lor(LT(rate, ZERO), LT(ZERO, rate)))
            flags[n] = (own, var(f"considered {n}"))
        # conditions on the geometry become flags: all atoms of one agent's condition together
        m = {}
        for n, (own, f) in flags.items():
            m[land(*own)] = f
        q = [flagged(x, flags) for x in p]
        N = Norm()
        vx2 = sq(at("Ego", "vx"))
        cands_t, cands_d = [], []
        for n in others:
            if n not in flags:
                continue
            f = flags[n][1]
            cands_t.append((f, T("fn", "ttc", const(n)), const(n)))
            dtc = T("fn", "dtc", const(n))
            cands_d.append((land(f, LT(ZERO, dtc)), T("div", vx2, T("mul", const(2), dtc)), const(n)))
            cands_d.append((land(f, lnot(LT(ZERO, dtc))), INF, const(n)))
        d = extremum(N, q[:2], cands_t, True, (INF, NONE))
        rep.ob("over agents", f"get_ttc_drac_at_t {tag} ttc", d is None, d and f"{d['what']} in case {d['case'][:8]}", g.w)
        d = extremum(N, q[2:], cands_d, False, (NINF, NONE))
        rep.ob("deceleration", f"get_ttc_drac_at_t {tag} drac", d is None, d and f"{d['what']} in case {d['case'][:8]}", g.w)


def flagged(t, flags):
    """the conditions under which an agent is considered, as one flag per agent"""
    def f(x):
        if x.op in ("and", "or", "not", "cmp"):
            for own, v in flags.values():
                cs = set(conjuncts(x))
                if cs >= set(own) and own:
                    return land(v, *[c for c in cs if c not in own])
                neg = lnot(x)
                cs = set(conjuncts(neg))
                if cs >= set(own) and own:
                    return lnot(land(v, *[c for c in cs if c not in own]))
        return x

    def walk(x):
        y = f(x)
        if y is not x:
            return walk(y) if y.op not in ("var",) and not (y.op == "not" and y.args[0].op == "var") else y
        if x.op in ("and", "or"):
            return (land if x.op == "and" else lor)(*[walk(z) for z in x.args])
        if x.op == "not":
            return lnot(walk(x.args[0]))
        if x.op == "ite":
            return ite(walk(x.args[0]), walk(x.args[1]), walk(x.args[2]))
        if x.op == "cmp" and contains(x, lambda z: z.op == "ite"):
            return T("cmp", x.args[0], walk(x.args[1]), walk(x.args[2]))
        return x
    return walk(t)


def rounded(t):
    def f(x):
        if x.op == "const" and isinstance(x.args[0], float) and x.args[0] == x.args[0] and abs(x.args[0]) != float("inf"):
            return const(round(x.args[0], 9))
        return x
    return rebuild(t, f)


def moving(rep):
    N = Norm()
    a = lambda k, n: T("attr", var(f"state{k}"), n)
    vel = lambda k: [T("mul", a(k, "vx"), T("fn", f, a(k, "psi"))) for f in ("cos", "sin")]
    dv = [T("sub", y, x) for x, y in zip(vel(1), vel(2))]
    horizon = 3.0
    last = None
    for hit in (0, 1, 7, None):
        asked = []

        def touch(ip, st, args, kwargs, node):
            xs = [ip.freeze(x, st) for x in list(args) + [x for _, x in kwargs]]
            asked.append(xs)
            return TRUE if hit is not None and len(asked) > hit else FALSE
        g = Go(rep, "_get_ttc_of_poly_and_state")
        g.ip.overrides[".intersects"] = touch
        g.ip.overrides["shapely.intersects"] = touch
        g.ip.unroll = 400
        v = g.run()
        p = parts(v, 3)
        tag = f"touching at look {hit}" if hit is not None else "never touching"
        if not rep.ob("collision time", f"{tag} shape", p is not None and bool(asked), f"returns {show(v)[:200]}", g.w):
            continue
        off = [relative(x) for x in asked]
        if not rep.ob("collision time", f"{tag} bodies", None not in off, f"tests {[show(y)[:100] for x, o in zip(asked, off) if o is None for y in x][:2]}", g.w):
            continue
        if hit is None:
            rep.ob("collision time", f"{tag} infinite", all(x is INF for x in p), f"returns {show(v)[:200]}", g.w)
            # how far it looked: the last look's displacement must reach the horizon
            k = scale(N, off[-1], dv)
            rep.ob("collision time", "horizon", k is not None and k >= horizon - 1e-6, f"looks ahead {k} s", g.w)
            continue
        t = p[0].args[0] if p[0].op == "const" else None
        if not rep.ob("collision time", f"{tag} time", isinstance(t, (int, float)) and t == t and len(asked) == hit + 1, f"time is {show(p[0])[:100]}", g.w):
            continue
        t = round(float(t), 9)
        k = scale(N, off[-1], dv, t)
        rep.ob("collision time", f"{tag} place", k is not None, f"the footprints tested at time {t} are displaced by {[show(x)[:100] for x in off[-1]]}", g.w)
        rep.ob("collision time", f"{tag} step", last is None or 0 < t - last[1] <= 0.1 * (hit - last[0]) + 1e-9 or hit == 0, f"advances from {last} to {t}", g.w)
        last = (hit, t)
        for i in (1, 2):
            rep.eq("collision time", f"{tag} distance {i}", N, rounded(p[i]), T("mul", a(i, "vx"), const(t)), g.w)


def relative(xs):
    """the displacement of the second footprint relative to the first"""
    out = {}
    for x in xs:
        if x in (var("poly1"), var("poly2")):
            out[x.args[0]] = [ZERO, ZERO]
        elif x.op == "fn" and x.args[0] == "affine" and x.args[1] in (var("poly1"), var("poly2")) and x.args[2:6] == (ONE, ZERO, ZERO, ONE):
            out[x.args[1].args[0]] = list(x.args[6:8])
    if set(out) != {"poly1", "poly2"}:
        return None
    return [T("sub", b, a) for a, b in zip(out["poly1"], out["poly2"])]


def scale(N, off, dv, t=None):
    """the k with off == k*dv"""
    off = [rounded(x) for x in off]
    for k in ([t] if t is not None else [round(i * 0.01, 9) for i in range(0, 2000)]):
        if all(N.diff(o, T("mul", const(k), d)) is None for o, d in zip(off, dv)):
            return k
    return None


def involved(rep):
    g = Go(rep, "has_collision")
    rs = [var("r0"), var("r1")]
    v = g.run(cr_list=T("list", *rs))
    N = Norm()
    want = lor(*[T("cmp", "in", EGO, T("attr", r, "players")) for r in rs])
    v2 = g.ip.truth(v, g.st) if v.op != "const" else v

    def norm(x):
        if x.op == "mcall" and x.args[1] == "keys" and not x.args[2]:
            return x.args[0]
        if x.op == "fn" and x.args[0] in ("keys", "set", "list", "tuple") and len(x.args) == 2:
            return x.args[1]
        if x.op == "cmp" and x.args[0] == "in" and x.args[2].op == "dupdate":
            return lor(*[norm(T("cmp", "in", x.args[1], y)) for y in x.args[2].args])
        if x.op == "cmp" and x.args[0] == "in" and x.args[2].op in ("dict", "set", "list", "tuple") and not x.args[2].args:
            return FALSE
        if x.op == "cmp" and x.args[0] == "in" and x.args[2].op == "fn" and x.args[2].args[0] == "union":
            return lor(*[T("cmp", "in", x.args[1], y) for y in x.args[2].args[1:]])
        return x
    rep.equiv("involved", "has_collision", N, rebuild(v2, norm), want, g.w)
