"""Symbolic runs of the trajectory generators over arbitrary samples, initial states and dynamics, unrolled over the steps of a primitive."""
from ..absint import Interp, State
from ..enumx import generators, draws
from ..norm import Norm
from ..terms import *
from ..types import Ty


def check(rep):
    ix = rep.ix
    rep.rule("samples", "all combinations of evenly spaced samples of the configured ranges are tried, nothing else")
    rep.rule("initial", "a primitive starts in the requested state, or in a sampled one at the origin")
    rep.rule("command", "the constant command is the difference quotient over the whole horizon")
    rep.rule("feasible", "exactly the primitives whose command is within the vehicle's limits are emitted")
    rep.rule("times", "one state per step, at multiples of the step from zero")
    rep.rule("states", "each state is obtained from the previous one by the vehicle dynamics over one step with that command")
    rep.rule("refuse", "the sampler refuses samples outside the vehicle's limits and keeps its parameters")
    rep.rule("pure", "generating changes nothing but the result")
    rep.rule("plan", "the command plan of a trajectory holds the difference quotient of each pair of samples at the first of them")
    rep.rule("euler", "the discrete bicycle dynamics saturates commands, speed and steering angle")
    X0 = var("x0")

    def setup(cls, prm, n):
        ip, st = Interp(ix), State()
        p, vp = var("p"), var("vp")
        ip.types[p], ip.types[vp], ip.types[X0] = Ty(ix.cls(prm).qual), Ty(ix.cls("VehicleParameters").qual), Ty(ix.cls("VehicleState").qual)
        ip.exact |= {p, vp, X0}
        st.heap[(p, "n_steps")] = const(n)
        q = ix.cls(cls).qual
        o = ip.instantiate(q, (p, var("dyn"), vp), (), st, None)
        return ip, st, p, vp, q, o

    def where(q, m):
        f = ix.find_method(q, m)
        return f"{f[0].mod.path}:{f[1].lineno} {f[0].qual}.{m}"

    def dyn(s, c, dt):
        ip, st = Interp(ix), State()
        return ip.call(var("dyn"), (s, c, dt), (), st, None)

    def fld(ip, st, r, k):
        return ip.freeze(ip.getattr(r, k, st), st) if r.op != "rec" else dict(r.args[1]).get(k, NONE)

    def linspace(rng):
        ip, st = Interp(ix), State()
        return ip.call(T("ext", "numpy.linspace"), tuple(T("item", rng, const(i)) for i in range(3)), (), st, None)

    def unitary(ip, name, w, o):
        """nothing that existed before is changed"""
        bad = [e for e in ip.effects if e.kind in ("store", "setitem", "mutate") and (e.target.op != "ref" or e.target is o)]
        rep.ob("pure", name, not bad, f"{bad[:1]!r}", bad[0].where() if bad else w)

    notnone = [lnot(T("cmp", "is", NONE, X0))]
    steps = (1, 2, 3) if rep.tier == "quick" else (1, 2, 3, 4, 6)
    for n in steps:
        for given in (False, True):
            ip, st, p, vp, q, o = setup("MotionPrimitivesGenerator", "MPGParam", n)
            k0 = len(ip.effects)
            w = where(q, "generate")
            name = f"{'given' if given else 'sampled'}-{n}"
            f = ix.find_method(q, "generate")
            r = ip.call(T("bound", o, f[0].qual + ".generate"), (X0 if given else NONE,), (), st, None)
            ip.effects = ip.effects[k0:]
            unitary(ip, name, w, o)
            rep.funcs |= ip.visited
            rep.notes += ip.notes
            t = ip.freeze(r, st)
            fix = {T("cmp", "is", NONE, X0): FALSE}
            t = rebuild_with(t, fix) if given else t
            gs = [g for g in generators(t) if g[1] is not FALSE]
            if not rep.ob("samples", f"{name}-shape", len(gs) == 1 and gs[0][2] is not None and gs[0][2].op == "rec",
                          f"the result is made of {len(gs)} kinds of trajectories: {show(t)[:300]}", w):
                continue
            loops, cond, v = gs[0]
            fs = dict(v.args[1])
            N = Norm(assume=notnone + [cond])
            vals = fs.get("_values", NONE)
            N0 = Norm(assume=notnone)
            ds, sub = draws(loops)
            V, S = linspace(T("attr", p, "velocity")), linspace(T("attr", p, "steering"))
            one = lambda x: x.args[0] if x.op in ("list", "tuple") and len(x.args) == 1 else None
            rest = []
            for el, src in ds:
                x = one(src)
                if x is not None:
                    sub[el] = x          # a loop over a single element
                else:
                    rest.append((el, src))
            if sub:
                cond, vals = rebuild_with(cond, sub), rebuild_with(vals, sub)
                fs["_timestamps"] = rebuild_with(fs["_timestamps"], sub)
                N = Norm(assume=notnone + [cond])
            want = [V, S] if given else [V, V, S, S]
            if not rep.ob("samples", f"{name}-ranges", sorted(map(id, (s for _, s in rest))) == sorted(map(id, want)),
                          f"samples are drawn from {[show(s)[:80] for _, s in rest]}", w):
                continue
            vs = [el for el, s in rest if s is V]
            ss = [el for el, s in rest if s is S]
            s0 = pick(vals, 0, N)
            at = lambda s, k: T("attr", s, k) if s is X0 else dict(s.args[1]).get(k, NONE)
            if given:
                if not rep.ob("initial", name, s0 is X0, f"the first state is {show(s0)[:300] if s0 is not None else show(vals)[:300]}", w):
                    continue
                ve, se = vs[0], ss[0]
            else:
                if not rep.ob("initial", f"{name}-made", s0 is not None and s0.op == "rec", f"the first state is {show(vals)[:300]}", w):
                    continue
                for k in ("x", "y", "psi"):
                    rep.eq("initial", f"{name}-{k}", N, at(s0, k), ZERO, w)
                v0 = [x for x in vs if N.diff(at(s0, "vx"), x) is None]
                d0 = [x for x in ss if N.diff(at(s0, "delta"), x) is None]
                if not rep.ob("initial", f"{name}-sampled", len(v0) == 1 and len(d0) == 1, f"the first state has vx={show(at(s0, 'vx'))[:200]}, delta={show(at(s0, 'delta'))[:200]}", w):
                    continue
                ve = [x for x in vs if x is not v0[0]][0]
                se = [x for x in ss if x is not d0[0]][0]
            dt = T("attr", p, "dt")
            hor = T("mul", dt, const(n))
            acc = T("div", T("sub", ve, at(s0, "vx")), hor)
            rate = T("div", T("sub", se, at(s0, "delta")), hor)
            lim = lambda x, lo, hi: land(lnot(T("cmp", "lt", x, lo)), lnot(T("cmp", "lt", hi, x)))
            A = T("attr", vp, "acc_limits")
            D = T("attr", vp, "ddelta_max")
            rep.equiv("feasible", name, N0, cond, land(lim(acc, T("item", A, ZERO), T("item", A, ONE)), lim(rate, T("neg", D), D)), w)
            ts = fs.get("_timestamps", NONE)
            rep.eq("times", name, N, ts, T("tuple", *[T("mul", const(i), dt) for i in range(n + 1)]), w)
            # the commands used
            cmd = T("rec", ix.cls("VehicleCommands").qual, (("acc", acc), ("ddelta", rate), ("lights", nolights(ix))))
            s, states = s0, [s0]
            for _ in range(n):
                s = dyn(s, cmd, dt)
                states.append(s)
            rep.eq("states", name, N, vals, T("tuple", *states), w)
            used = [x for x in subterms(vals) if x.op == "rec" and x.args[0] == ix.cls("VehicleCommands").qual]
            if rep.ob("command", f"{name}-used", bool(used) or n == 0, "no command is applied", w):
                for c in used:
                    rep.eq("command", f"{name}-acc", N, dict(c.args[1]).get("acc", NONE), acc, w)
                    rep.eq("command", f"{name}-ddelta", N, dict(c.args[1]).get("ddelta", NONE), rate, w)
    # ---- commands sampler
    ip, st, p, vp, q, o = setup("CommandsSampler", "CommandsSamplerParam", 1)
    A, D = T("attr", vp, "acc_limits"), T("attr", vp, "ddelta_max")

    def inside(prm):
        a, s = T("attr", prm, "acc"), T("attr", prm, "steer_rate")
        le = lambda x, y: lnot(T("cmp", "lt", y, x))
        i = lambda x, k: T("item", x, const(k))
        return land(le(i(A, 0), i(a, 0)), le(i(a, 0), i(a, 1)), le(i(a, 1), i(A, 1)), le(T("neg", D), i(s, 0)), le(i(s, 0), i(s, 1)), le(i(s, 1), D))
    N = Norm()
    accepted = lambda efs, st: land(st.pc, *[T("or", lnot(e.guard), e.fvalue) if e.guard is not TRUE else e.fvalue for e in efs if e.kind == "assert"])
    rep.equiv("refuse", "construction", N, accepted(ip.effects, st), inside(p), where(q, "__init__"))
    rep.ob("refuse", "construction-kept", ip.freeze(ip.getattr(o, "_param", st), st) is p if hasattr_(ip, o, "_param", st) else True, "the parameters are not kept", where(q, "__init__"))
    k = len(ip.effects)
    p2 = var("p2")
    ip.types[p2] = Ty(ix.cls("CommandsSamplerParam").qual)
    ip.exact.add(p2)
    st.heap[(p2, "n_steps")] = ONE
    f = ix.find_method(q, "update_params")
    st.pc = TRUE
    ip.call(T("bound", o, f[0].qual + ".update_params"), (p2,), (), st, None)
    w = where(q, "update_params")
    rep.equiv("refuse", "update", N, accepted(ip.effects[k:], st), inside(p2), w)
    stores = [e for e in ip.effects[k:] if e.kind == "store"]
    asserts = [e for e in ip.effects[k:] if e.kind in ("assert", "raise")]
    rep.ob("refuse", "update-order", all(s.seq > a.seq for s in stores for a in asserts), "parameters are stored before they are checked", w)
    k = len(ip.effects)
    f = ix.find_method(q, "generate")
    w = where(q, "generate")
    r = ip.call(T("bound", o, f[0].qual + ".generate"), (X0,), (), st, None)
    t = ip.freeze(r, st)
    ip.effects = ip.effects[k:]
    unitary(ip, "sampler", w, o)
    rep.funcs |= ip.visited
    gs = [g for g in generators(t) if g[1] is not FALSE]
    if rep.ob("samples", "sampler-shape", len(gs) == 1 and gs[0][2] is not None and gs[0][2].op == "rec", f"the result is {show(t)[:300]}", w):
        loops, cond, v = gs[0]
        N = Norm(assume=notnone)
        ds, sub = draws(loops)
        cond, v = rebuild_with(cond, sub), rebuild_with(v, sub)
        V, S = linspace(T("attr", p2, "acc")), linspace(T("attr", p2, "steer_rate"))
        rep.holds("feasible", "sampler", N, cond, w, what="every sampled command is emitted, which")
        if rep.ob("samples", "sampler-ranges", sorted(id(s) for _, s in ds) == sorted([id(V), id(S)]), f"samples are drawn from {[show(s)[:80] for _, s in ds]}", w):
            a = [el for el, s in ds if s is V][0]
            d = [el for el, s in ds if s is S][0]
            cmd = T("rec", ix.cls("VehicleCommands").qual, (("acc", a), ("ddelta", d), ("lights", nolights(ix))))
            dt = T("attr", p2, "dt")
            fs = dict(v.args[1])
            rep.eq("times", "sampler", N, fs.get("_timestamps", NONE), T("tuple", ZERO, dt), w)
            rep.eq("states", "sampler", N, fs.get("_values", NONE), T("tuple", X0, dyn(X0, cmd, dt)), w)
    plan(rep)
    euler(rep)


def hasattr_(ip, o, k, st):
    return (o, k) in st.heap


def nolights(ix):
    ip, st = Interp(ix), State()
    r = ip.instantiate(ix.cls("VehicleCommands").qual, (ZERO, ZERO), (), st, None)
    return ip.freeze(ip.getattr(r, "lights", st), st)


def rebuild_with(t, m):
    """substitution with simplification of conditionals"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        a = tuple(go(y) for y in x.args)
        if x.op == "ite":
            r = ite(*a)
        elif x.op == "not":
            r = lnot(*a)
        elif x.op == "and":
            r = land(*a)
        elif x.op == "or":
            r = lor(*a)
        elif x.op == "item" and a[0].op in ("list", "tuple") and isconst(a[1]) and isinstance(a[1].args[0], int) and a[1].args[0] < len(a[0].args):
            r = a[0].args[a[1].args[0]]
        else:
            r = x if all(p is q for p, q in zip(a, x.args)) else T(x.op, *a)
        memo[x] = r
        return r
    for _ in range(3):
        memo.clear()
        n = go(t)
        if n is t:
            break
        t = n
    return t


def pick(vals, i, N):
    """element i of a possibly conditional tuple whose condition is known to hold"""
    while vals.op == "ite":
        if N.fails(vals.args[0]) is None:
            vals = vals.args[1]
        elif N.fails(lnot(vals.args[0])) is None:
            vals = vals.args[2]
        else:
            return None
    if vals.op in ("tuple", "list") and len(vals.args) > i:
        s = vals.args[i]
        while s.op == "ite":
            s = s.args[1] if N.fails(s.args[0]) is None else s.args[2]
        return s
    return None


def plan(rep):
    ix = rep.ix
    fi = ix.func("commands_plan_from_trajectory")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    # a trajectory of three samples; the loop treats every pair of neighbours alike
    ip, st = Interp(ix), State()
    tq = ix.cls("Trajectory").qual
    tr = ip.new_ref(tq)
    ip.types[tr] = Ty(tq)
    ts = T("tuple", *[var(f"t{i}") for i in range(4)])
    xs = [var(f"s{i}") for i in range(4)]
    for x in xs:
        ip.types[x] = Ty(ix.cls("VehicleState").qual)
        ip.exact.add(x)
    st.heap[(tr, "_timestamps")], st.heap[(tr, "_values")] = ts, T("tuple", *xs)
    r = ip.run(fi, {fi.node.args.args[0].arg: tr}, st=st)
    rep.funcs |= ip.visited
    rep.notes += ip.notes
    v = r.frozen()
    inc = [T("cmp", "lt", ts.args[i], ts.args[i + 1]) for i in range(3)]
    N = Norm(assume=inc)
    if rep.ob("plan", "made", v.op == "rec", f"the plan is {show(v)[:300]}", w):
        fs = dict(v.args[1])
        t0, c0 = fs.get("_timestamps", NONE), fs.get("_values", NONE)
        rep.eq("plan", "times", N, t0, T("tuple", *ts.args[:3]), w)
        cq = ix.cls("VehicleCommands").qual
        want = []
        for i in range(3):
            d = T("sub", ts.args[i + 1], ts.args[i])
            want.append(T("rec", cq, tuple((k, T("div", T("sub", T("attr", xs[i + 1], a), T("attr", xs[i], a)), d)) for k, a in (("acc", "vx"), ("ddelta", "delta"))) + (("lights", nolights(ix)),)))
        rep.eq("plan", "commands", N, c0, T("tuple", *want), w)


def euler(rep):
    ix = rep.ix
    q = ix.cls("BicycleDynamics").qual
    f = ix.find_method(q, "successor")
    w = f"{f[0].mod.path}:{f[1].lineno} {q}.successor"
    ip, st = Interp(ix, overrides={"BicycleDynamics.dynamics": rates}), State()
    o, x0, u, vp = var("self"), var("x0"), var("u"), var("vp")
    ip.types.update({o: Ty(q), x0: Ty(ix.cls("VehicleState").qual), u: Ty(ix.cls("VehicleCommands").qual), vp: Ty(ix.cls("VehicleParameters").qual)})
    ip.exact |= {o, x0, u, vp}
    st.heap[(o, "vp")] = vp
    r = ip.call(T("bound", o, f[0].qual + ".successor"), (x0, u, var("dt")), (), st, None)
    rep.funcs |= ip.visited
    bad = [e for e in ip.effects if e.kind in ("store", "setitem", "mutate") and e.target.op != "ref"]
    rep.ob("euler", "pure", not bad, f"{bad[:1]!r}", w)
    A, V = T("attr", vp, "acc_limits"), T("attr", vp, "vx_limits")
    D, M = T("attr", vp, "ddelta_max"), T("attr", vp, "delta_max")
    lo, hi = (lambda x: T("item", x, ZERO)), (lambda x: T("item", x, ONE))
    N = Norm(assume=[T("cmp", "lt", lo(A), hi(A)), T("cmp", "lt", lo(V), hi(V)), T("cmp", "lt", ZERO, D), T("cmp", "lt", ZERO, M)])
    clip = lambda x, a, b: ite(T("cmp", "lt", x, a), a, ite(T("cmp", "lt", b, x), b, x))
    acc = clip(T("attr", u, "acc"), lo(A), hi(A))
    dd = clip(T("attr", u, "ddelta"), T("neg", D), D)
    fs = ("x", "y", "psi", "vx", "delta")
    step = {k: T("add", T("attr", x0, k), T("mul", T("fn", "rate_" + k, x0, acc, dd), var("dt"))) for k in fs}
    step["vx"] = clip(step["vx"], lo(V), hi(V))
    step["delta"] = clip(step["delta"], T("neg", M), M)
    for k in fs:
        rep.eq("euler", k, N, ip.freeze(ip.getattr(r, k, st), st), step[k], w)


def rates(ip, st, args, kwargs, node):
    d = dict(zip(("self", "x0", "u"), args))
    d.update(dict(kwargs))
    x = ip.freeze(d["x0"], st)
    a, b = (ip.freeze(ip.getattr(d["u"], k, st), st) for k in ("acc", "ddelta"))
    q = ip.ix.cls("VehicleState").qual
    return ip.instantiate(q, (), tuple((k, T("fn", "rate_" + k, x, a, b)) for k in ("x", "y", "psi", "vx", "delta")), st, None)
