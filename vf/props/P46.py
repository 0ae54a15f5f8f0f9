"""Closed forms of the evaluation metrics, by abstract execution on sequences and lane networks of concrete structure."""
from fractions import Fraction

from ..absint import Interp, State
from ..calls import to_arr
from ..norm import Norm
from ..terms import *
from ..types import Ty

LT = lambda a, b: T("cmp", "lt", a, b)
LE = lambda a, b: lnot(LT(b, a))
sq = lambda t: T("mul", t, t)
plus = lambda ts: ts[0] if len(ts) == 1 else T("add", plus(ts[:-1]), ts[-1]) if ts else ZERO


def check(rep):
    rep.rule("distance", "the distance travelled is the sum of the straight distances between consecutive positions")
    rep.rule("jerk", "the maximal jerk is the largest absolute change of acceleration per time between consecutive commands in the time range")
    rep.rule("weighting", "the frequency weighting is the third order approximation of ISO 2631")
    rep.rule("rms", "the comfort value is the root mean square of the frequency weighted acceleration, for any number of samples and any sampling step")
    rep.rule("reached", "a lane is reached close to its centre, aligned with it, on the lane or on one following it; or when the goal is fulfilled")
    rep.rule("ends", "the search for the lane one is on ends, for every shape of road")
    rep.rule("time", "the time at which the lane is reached is the first time at which it is")
    rep.rule("link", "the following and the preceding lane of a lane, if any, are found from its position")
    distance(rep)
    jerk(rep)
    rms(rep)
    reached(rep)
    time(rep)
    link(rep)


def func(rep, name):
    f = rep.ix.func(name)
    return f.qual, f"{f.mod.path}:{f.node.lineno} {f.qual}"


def make(ip, st, ix, cls, values):
    return [ip.instantiate(ix.cls(cls).qual, (), tuple(v.items()), st, None) for v in values]


def sequence(ip, st, ix, times, values):
    return ip.instantiate(ix.cls("DgSampledSequence").qual, (), (("timestamps", T("tuple", *times)), ("values", T("tuple", *values))), st, None)


def run(rep, name, *args, setup=None, overrides=None, unroll=0):
    ip, st = Interp(rep.ix, overrides=overrides or {}), State()
    ip.unroll = unroll
    a = [x(ip, st) if callable(x) else x for x in args]
    v = ip.freeze(ip.call(T("func", func(rep, name)[0]), tuple(a), (), st, None), st)
    rep.funcs |= ip.visited
    return v


def distance(rep):
    ix = rep.ix
    w = func(rep, "distance_traveled")[1]
    for n in (1, 2, 3, 5):
        ts = [var(f"t{i}") for i in range(n)]
        S = [{f: var(f"{f}{i}") for f in ("x", "y", "psi", "vx", "delta")} for i in range(n)]
        v = run(rep, "distance_traveled", lambda ip, st: sequence(ip, st, ix, ts, make(ip, st, ix, "VehicleState", S)))
        want = plus([T("fn", "sqrt", T("add", sq(T("sub", b["x"], a["x"])), sq(T("sub", b["y"], a["y"])))) for a, b in zip(S, S[1:])])
        rep.eq("distance", f"{n} states", Norm(assume=[LT(a, b) for a, b in zip(ts, ts[1:])]), v, want, w)


def commands(ix, n, times):
    U = [{"acc": var(f"acc{i}"), "ddelta": var(f"ddelta{i}")} for i in range(n)]
    return U, lambda ip, st: sequence(ip, st, ix, times, make(ip, st, ix, "VehicleCommands", U))


def jerk(rep):
    ix = rep.ix
    w = func(rep, "get_max_jerk")[1]
    cases = [("all", n, (NONE, NONE), None) for n in (1, 2, 3, 4)]
    # times 0, 2, 3, 5, 6
    cases += [("from the start", 5, (const(0), NONE), None), ("to the end", 5, (NONE, const(6)), None), ("from between", 5, (const(4), NONE), (2, 4)), ("to between", 5, (NONE, const(4)), (0, 2)), ("inner", 5, (const(1), const(5)), None)]
    for tag, n, rng, inner in cases:
        ts = [const(k) for k in (0, 2, 3, 5, 6)[:n]]
        U, s = commands(ix, n, ts)
        rate = [T("fn", "abs", T("div", T("sub", U[i + 1]["acc"], U[i]["acc"]), T("sub", ts[i + 1], ts[i]))) for i in range(n - 1)]
        v = run(rep, "get_max_jerk", s, T("tuple", *rng))
        lo, hi = (x.args[0] for x in rng)
        # steps within the range count, steps outside it do not
        must = [i for i in range(n - 1) if (lo is None or ts[i].args[0] >= lo) and (hi is None or ts[i + 1].args[0] <= hi)]
        may = [i for i in range(n - 1) if (lo is None or ts[i + 1].args[0] > lo) and (hi is None or ts[i].args[0] < hi)]
        N = Norm()
        for i in must:
            rep.holds("jerk", f"{tag} of {n}: step {i}", N, LE(rate[i], v), w, what="the step counts")
        if not must and not may:
            rep.eq("jerk", f"{tag} of {n}: nothing", N, v, ZERO, w)
        elif len(may) <= 3 or must == may:
            rep.holds("jerk", f"{tag} of {n}: attained", N, lor(*[T("cmp", "eq", *sorted((v, x), key=lambda t: t.uid)) for x in [rate[i] for i in may] + [ZERO]]), w, what="one of the steps attains it")
        out = {f"acc{i}" for i in range(n)} - {f"acc{j}" for i in may for j in (i, i + 1)}
        rep.ob("jerk", f"{tag} of {n}: only", not any(x.op == "var" and x.args[0] in out for x in subterms(v)), "depends on commands outside the time range", w)


def weight(f):
    c = lambda x: const(Fraction(x))
    p = lambda cs: plus([T("mul", c(k), pw(f, e)) if e else c(k) for k, e in cs])
    return T("div", p((("14.55", 2), ("6.026", 1), ("7.725", 0))), p((("1", 3), ("15.02", 2), ("51.63", 1), ("47.61", 0))))


def pw(f, e):
    return f if e == 1 else T("mul", f, pw(f, e - 1))


def rms(rep):
    ix = rep.ix
    q, w = func(rep, "acc_freq_filter")
    F = var("frequency")
    v = run(rep, "acc_freq_filter", F)
    N = Norm(assume=[LE(ZERO, F)])
    rep.eq("weighting", "formula", N, v, weight(F), w)
    w = func(rep, "get_acc_rms")[1]

    def values(ip, t, st):
        t = ip.freeze(t, st)
        a = to_arr(t)
        return list(a.args) if a is not None else None

    def arg(args, kwargs, i, name, default=None):
        return args[i] if len(args) > i else dict(kwargs).get(name, default)

    def rfft(ip, st, args, kwargs, node):
        xs = values(ip, arg(args, kwargs, 0, "a"), st)
        if xs is None:
            return T("fn", "unknown")
        return T("arr", *[T("fn", "F", T("list", *xs), const(k)) for k in range(len(xs) // 2 + 1)])

    def freqs(ip, st, args, kwargs, node):
        n, d = arg(args, kwargs, 0, "n"), arg(args, kwargs, 1, "d", ONE)
        if not isconst(n) or not isinstance(n.args[0], int) or n.args[0] < 1:
            return T("fn", "unknown")
        return T("arr", *[T("div", const(k), T("mul", n, d)) for k in range(n.args[0] // 2 + 1)])

    def irfft(ip, st, args, kwargs, node):
        xs, n = values(ip, arg(args, kwargs, 0, "a"), st), arg(args, kwargs, 1, "n", NONE)
        if xs is None or n is not NONE and not isconst(n):
            return T("fn", "unknown")
        n = 2 * (len(xs) - 1) if n is NONE else n.args[0]
        return T("arr", *[T("fn", "iF", T("list", *xs), const(n), const(j)) for j in range(n)])
    ov = {"numpy.fft.rfft": rfft, "numpy.fft.rfftfreq": freqs, "numpy.fft.irfft": irfft}
    S = Fraction(1, 10)
    for n, dt, rng in ((1, S, None), (2, S, None), (3, S, None), (4, S, None), (5, S, None), (6, S, (1, 4)), (6, S, (1, None)), (6, S, (None, 3)), (5, Fraction(1, 4), None)):
        ts = [const(float(k * dt)) for k in range(n)]
        U, s = commands(ix, n, ts)
        lo, hi = rng or (None, None)
        r = T("tuple", *[NONE if k is None else ts[k] for k in (lo, hi)])
        v = run(rep, "get_acc_rms", s, r, overrides=ov)
        acc = [u["acc"] for u in U[lo or 0:(n if hi is None else hi + 1)]]
        m = len(acc)
        wf = [T("mul", T("fn", "F", T("list", *acc), const(k)), weight(const(Fraction(k) / (m * Fraction(dt))))) for k in range(m // 2 + 1)]
        tag = f"{m} of {n} samples every {dt}"
        # the weighted values in the time domain, as they are averaged
        js = sorted({x for x in subterms(v) if x.op == "fn" and x.args[0] == "iF"}, key=lambda t: t.args[3].args[0])
        if not rep.ob("rms", f"{tag}: transforms", bool(js), f"the value is {show(v)[:200]}, not from the weighted spectrum", w):
            continue
        rep.ob("rms", f"{tag}: length", len(js) == m and all(x.args[2].args[0] == m for x in js), f"transforms {m} samples back to {js[0].args[2].args[0]} samples, of which {len(js)} are used", w)
        N = Norm()
        if dt != S:
            # the step is that of the given commands
            same = lambda step: len(js[0].args[1].args) == m // 2 + 1 and all(
                N.diff(a, T("mul", T("fn", "F", T("list", *acc), const(k)), weight(const(Fraction(k) / (m * step))))) is None for k, a in enumerate(js[0].args[1].args))
            at_tenth = not same(dt) and same(S)
            rep.ob("rms", "sampling step" if at_tenth else "sampling step of the commands", same(dt),
                   f"commands sampled every {dt} s are weighted {'as if sampled every 0.1 s' if at_tenth else 'at other frequencies than their own'}", w)
            continue
        for k, want in enumerate(wf):
            got = js[0].args[1].args[k] if k < len(js[0].args[1].args) else NONE
            rep.eq("rms", f"{tag}: spectrum {k}", N, got, want, w)
        Z = {x: var(f"z{i}") for i, x in enumerate(js)}
        rep.eq("rms", f"{tag}: mean", N, subst(v, Z), T("fn", "sqrt", T("div", plus([sq(z) for z in Z.values()]), const(len(js)))), w)


# ------------------------------------------------------------------ lanes
class Road:
    """lanes by name: name -> (successors, predecessors); positions: name -> along / where"""
    def __init__(self, rep, links, at, goal="A"):
        self.rep, self.links, self.at, self.goal = rep, links, at, goal
        self.asked = []

    def run(self, tol=("pos_tol", "heading_tol"), fulfilled="fulfilled"):
        ix = self.rep.ix
        net = var("network")
        ids = {n: const(10 + i) for i, n in enumerate(self.links)}
        ip, st = Interp(ix), State()
        self.lane = {n: ip.new_ref(ix.cls("DgLanelet").qual) for n in self.links}
        self.let = {n: ip.new_ref("Lanelet") for n in self.links}
        back = {v: n for n, v in self.lane.items()}
        ip.unroll = 16
        for n in self.links:
            succ, pred = self.links[n]
            st.heap[(self.let[n], "successor")] = T("list", *[ids[k] for k in succ])
            st.heap[(self.let[n], "predecessor")] = T("list", *[ids[k] for k in pred])
            st.heap[(self.let[n], "lanelet_id")] = ids[n]
        st.heap[(net, "lanelets")] = T("list", *self.let.values())

        def find(ip, st, args, kwargs, node):
            i = (args[1:] + tuple(v for _, v in kwargs))[0]
            return next((self.let[n] for n, k in ids.items() if k is i), T("fn", "unknown", i))

        def convert(ip, st, args, kwargs, node):
            x = (args + tuple(v for _, v in kwargs))[-1]
            return next((self.lane[n] for n, k in self.let.items() if k is x), T("fn", "unknown", x))

        def of(ip, st, args, kwargs, node):
            x = (args + tuple(v for _, v in kwargs))[-1]
            return self.let[back[x]] if x in back else T("fn", "unknown", x)

        def pose(ip, st, args, kwargs, node):
            n = back.get(args[0])
            if n is None:
                return T("fn", "unknown", args[0])
            self.asked.append((n, ip.freeze((args[1:] + tuple(v for k, v in kwargs if k != "tol"))[0], st)))
            along, L = self.at[n]
            r = T("fn", "lanepose", const(n))
            for k, x in (("along_inside", const(0 <= along <= L)), ("along_before", const(along < 0)), ("along_after", const(along > L)), ("along_lane", const(along)),
                         ("lateral_inside", var(f"beside_{n}")), ("distance_from_center", var(f"offset_{n}")), ("relative_heading", var(f"heading_{n}"))):
                st.heap[(r, k)] = x
            return r

        def length(ip, st, args, kwargs, node):
            return const(self.at[back[args[0]]][1]) if args[0] in back else T("fn", "unknown")
        ip.overrides.update({".find_lanelet_by_id": find, ix.method("DgLanelet", "from_commonroad_lanelet").qual: convert, func(self.rep, "get_lanelet_from_dglanelet")[0]: of,
                             ix.method("DgLanelet", "lane_pose_from_SE2Transform").qual: pose, ix.method("DgLanelet", "lane_pose_from_SE2_generic").qual: pose, ix.method("DgLanelet", "get_lane_length").qual: length})
        g = var("goal")
        ip.types[g] = Ty(ix.cls("RefLaneGoal").qual)
        st.heap[(g, "ref_lane")] = self.lane[self.goal]
        self.done = []

        def is_done(ip, st, args, kwargs, node):
            self.done.append(args)
            return var(fulfilled)
        ip.overrides[ix.method("RefLaneGoal", "is_fulfilled").qual] = is_done
        s = make(ip, st, ix, "VehicleState", [{f: var(f) for f in ("x", "y", "psi", "vx", "delta")}])[0]
        v = ip.freeze(ip.call(T("func", func(self.rep, "desired_lane_reached")[0]), (net, g, s) + tuple(map(var, tol)), (), st, None), st)
        self.rep.funcs |= ip.visited
        self.ends = st.pc
        return v


def reached(rep):
    w = func(rep, "desired_lane_reached")[1]
    P, H = var("pos_tol"), var("heading_tol")
    N = Norm(assume=[LT(ZERO, P), LT(ZERO, H)])

    def on(n):
        return lor(var("fulfilled"), land(var(f"beside_{n}"), LT(var(f"offset_{n}"), P), LT(T("fn", "abs", var(f"heading_{n}")), H)))
    chain = {"A": ("B", ""), "B": ("C", "A"), "C": ("", "B")}
    for tag, links, at, lane in (
            ("on the lane", chain, {"A": (5, 10), "B": (-5, 10), "C": (-15, 10)}, "A"),
            ("at its start", chain, {"A": (0, 10), "B": (-10, 10), "C": (-20, 10)}, "A"),
            ("on the next lane", chain, {"A": (14, 10), "B": (4, 10), "C": (-6, 10)}, "B"),
            ("two lanes further", chain, {"A": (26, 10), "B": (16, 10), "C": (6, 10)}, "C"),
            ("just beyond the lane", {"A": ("", "")}, {"A": (10.5, 10)}, "A"),
            ("just before the lane", {"A": ("", "")}, {"A": (-0.5, 10)}, "A"),
            ("the first of two next lanes", {"A": ("BC", ""), "B": ("", "A"), "C": ("", "A")}, {"A": (14, 10), "B": (4, 10), "C": (4, 10)}, "B")):
        r = Road(rep, links, at)
        v = r.run()
        rep.equiv("reached", tag, N, v, on(lane), w)
        poses = {p for _, p in r.asked}
        ok = bool(poses) and all(contains(p, lambda t: t is var(k)) for p in poses for k in ("x", "y", "psi"))
        rep.ob("reached", f"{tag}: own pose", ok, "the lane is not searched for the own pose", w)
    for tag, links, at in (
            ("outside of a bend between two lanes", {"A": ("B", ""), "B": ("", "A")}, {"A": (13, 10), "B": (-3, 10)}),
            ("outside of a bend further on", chain, {"A": (33, 10), "B": (15, 10), "C": (-4, 10)}),
            ("outside of a bend before", {"A": ("", "B"), "B": ("A", "")}, {"A": (-3, 10), "B": (14, 10)}),
            ("off a ring", {"A": ("B", "B"), "B": ("A", "A")}, {"A": (14, 10), "B": (12, 10)}),
            ("off a ring, backwards", {"A": ("B", "B"), "B": ("A", "A")}, {"A": (-14, 10), "B": (-12, 10)}),
            ("a lane that follows itself", {"A": ("A", "A")}, {"A": (14, 10)}),
            ("beyond the last lane", chain, {"A": (46, 10), "B": (36, 10), "C": (26, 10)}),
            ("before the first lane", {"A": ("", "")}, {"A": (-26, 10)})):
        r = Road(rep, links, at)
        v = r.run()
        ok = not any(x.op in ("mu", "fold", "loopwr") for x in subterms(v)) and {x for x in subterms(v) if x.op == "var"} <= {var(f"{k}_{n}") for k in ("beside", "offset", "heading") for n in links} | {P, H, var("fulfilled")}
        rep.ob("ends", tag, ok and len(r.asked) <= 3 * len(links) + 3, "the search does not end: it goes on from lane to lane", w)


def time(rep):
    ix = rep.ix
    w = func(rep, "time_goal_lane_reached")[1]
    q = func(rep, "desired_lane_reached")[0]
    names = [a.arg for a in ix.func("desired_lane_reached").node.args.args]
    net, goal, P, H = map(var, ("network", "goal", "pos_tol", "heading_tol"))
    for n in (1, 2, 4):
        ts = [var(f"t{i}") for i in range(n)]
        S = [{f: var(f"{f}{i}") for f in ("x", "y", "psi", "vx", "delta")} for i in range(n)]
        bad = []

        def one(ip, st, args, kwargs, node):
            d = dict(zip(names, args)) | dict(kwargs)
            i = next((i for i in range(n) if contains(ip.freeze(d["state"], st), lambda t: t is S[i]["x"])), None)
            for k, x in (("lanelet_network", net), ("goal_lane", goal), ("pos_tol", P), ("heading_tol", H)):
                if d.get(k) is not x:
                    bad.append(k)
            return var(f"reached{i}")
        ip = None
        v = run(rep, "time_goal_lane_reached", net, goal, lambda ip, st: sequence(ip, st, ix, ts, make(ip, st, ix, "VehicleState", S)), P, H, overrides={q: one})
        want = NONE
        for i in reversed(range(n)):
            want = ite(var(f"reached{i}"), ts[i], want)
        N = Norm(assume=[LT(a, b) for a, b in zip(ts, ts[1:])])
        rep.eq("time", f"{n} states", N, v, want, w)
        rep.ob("time", f"{n} states: goal and tolerances", not bad, f"other {', '.join(sorted(set(bad)))} than given", w)


def link(rep):
    ix = rep.ix
    for f, attr in (("get_successor_dglane", "successor"), ("get_predecessor_dglane", "predecessor")):
        w = func(rep, f)[1]
        for tag, ids in (("none", ()), ("one", (7,)), ("two", (7, 8))):
            ip, st = Interp(ix), State()
            net, lane, cur, then = var("network"), var("lane"), ip.new_ref("Lanelet"), {k: ip.new_ref("Lanelet") for k in ids}
            ip.types[lane] = Ty(ix.cls("DgLanelet").qual)
            ip.exact.add(lane)
            st.heap[(cur, attr)] = T("list", *map(const, ids))
            st.heap[(cur, "predecessor" if attr == "successor" else "successor")] = T("list", const(99))
            seen = []

            def point(ip, st, args, kwargs, node):
                seen.append(ip.freeze((args[1:] + tuple(v for _, v in kwargs))[0], st))
                return T("list", T("list", const(5), const(6)))
            ip.overrides.update({".find_lanelet_by_position": point,
                                 ".find_lanelet_by_id": lambda ip, st, a, k, nd: (lambda i: cur if i is const(5) else next((v for n, v in then.items() if i is const(n)), T("fn", "by_id", i)))((a[1:] + tuple(v for _, v in k))[0]),
                                 ix.method("DgLanelet", "from_commonroad_lanelet").qual: lambda ip, st, a, k, nd: T("fn", "lane_of", next((const(n) for n, v in then.items() if v is (a + tuple(v for _, v in k))[-1]), NONE))})
            v = ip.freeze(ip.call(T("func", func(rep, f)[0]), (net, lane), (), st, None), st)
            rep.funcs |= ip.visited
            want = T("fn", "lane_of", const(7)) if ids else NONE
            rep.ob("link", f"{f} of {tag}", v is want, f"is {show(v)[:200]}", w)
            ok = len(seen) == 1 and contains(seen[0], lambda t: t.op == "attr" and t.args[1] == "control_points" and t.args[0] is lane)
            rep.ob("link", f"{f} of {tag}: own lane", ok, "the lanelet is not the one at a point of the lane", w)
