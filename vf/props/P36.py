"""Abstract execution of the renderer for each state type, first draw and redraw, comparing what every drawn patch ends up showing."""
from ..absint import Interp, State
from ..norm import Norm
from ..terms import *
from ..types import Ty
from .P08 import states

PN, AX, SELF, CMD, LC = var("player"), var("ax"), var("self"), var("command"), var("lights")
LIGHTS = ("back_right", "front_left", "back_left", "front_right")
# what is shown besides the body: (geometry member, its arguments, wheel-like?) per state type that has moving parts
MG = var("geometry")


def geo(name, *args):
    return T("mcall", MG, name, tuple(args), ())


PARTS = ("thrusters_outline_in_body_frame", "flames_outline_in_body_frame", "get_rotated_wheels_outlines", "wheels_outlines")


def nparts(ix, q):
    """how many thrusters this geometry has (wheels: two, standing for any number)."""
    m = ix.find_method(q, "n_thrusters")
    if not m:
        return 2
    ip, st = Interp(ix), State()
    v = var("g")
    ip.types[v] = Ty(q)
    ip.exact.add(v)
    n = ip.getattr(v, "n_thrusters", st)
    return n.args[0] if isconst(n) and isinstance(n.args[0], int) else 2


def overrides(ix):
    """members of geometries stay symbolic; every patch created is a new numbered handle."""
    ov = {}
    for q in ix.subclasses(ix.cls("ModelGeometry").qual):
        for c in ix.mro(q):
            if c not in ix.classes:
                continue
            for m in ix.classes[c].methods:
                if m.startswith("__") or m == "n_thrusters":
                    continue

                def f(ip, st, args, kwargs, node, m=m, q=q):
                    if m == "n_wheels":
                        return const(2)
                    if m == "lights_position":
                        return T("dict", *[(const(k), T("tuple", var(f"{k}.x"), var(f"{k}.y"))) for k in LIGHTS])
                    r = T("mcall", args[0], m, tuple(ip.freeze(a, st) for a in args[1:]), tuple((k, ip.freeze(v, st)) for k, v in kwargs))
                    if m in PARTS:
                        return T("list", *[T("item", r, const(i)) for i in range(nparts(ix, q))])
                    return r
                ov[c + "." + m] = f

    def xf(ip, st, args, kwargs, node):
        d = dict(zip(("q", "points"), args))
        d.update(kwargs)
        return T("fn", "xform", ip.freeze(d["q"], st), ip.freeze(d["points"], st))
    ov[ix.func("transform_xy").qual] = xf

    def patch(kind, many):
        def f(ip, st, args, kwargs, node):
            ip.patches = getattr(ip, "patches", [])
            h = var(f"{kind}#{len(ip.patches)}")
            ip.patches.append((h, kind, args, tuple((k, ip.freeze(v, st)) for k, v in kwargs), st.pc))
            return T("list", h) if many else h
        return f
    # methods of the axes and the patch class of the plotting library
    ov[".fill"] = lambda ip, st, args, kwargs, node: patch("fill", True)(ip, st, args[1:], kwargs, node)
    ov[".text"] = lambda ip, st, args, kwargs, node: patch("text", False)(ip, st, args[1:], kwargs, node)
    ov["matplotlib.patches.Circle"] = patch("circle", False)
    return ov


class Draw:
    def __init__(self, ix, q):
        self.ix, self.q = ix, q
        self.ip = Interp(ix, overrides=overrides(ix))
        self.ip.patches = []
        self.st = State()
        self.fi = ix.method("SimRenderer", "plot_player")
        lq = ix.cls("LightsColors").qual
        self.ip.types[LC] = Ty(lq)
        self.ip.exact.add(LC)

    def draw(self, S, poly, lights):
        if self.q:
            self.ip.types[S] = Ty(self.q)
            self.ip.exact.add(S)
        self.ip.raises = []
        k = len(self.ip.patches)
        self.a = {"ax": AX, "player_name": PN, "state": S, "command": CMD, "lights_colors": LC, "model_poly": poly, "lights_patches": lights,
                  "alpha": var("alpha"), "plot_wheels": TRUE, "plot_lights": TRUE}
        r = self.ip.run(self.fi, self.a, selfterm=SELF, st=self.st)
        self.st = r.state if r.state is not None else self.st
        self.res = r
        return r.value, r.effects, self.ip.patches[k:]


def models_term():
    return T("item", T("attr", T("attr", SELF, "sim_context"), "models"), PN)


def tidy(t, d):
    """the player's own geometry, and nobody else's, becomes one symbol; an element of a list made element by element is written out."""
    m = models_term()

    def f(x):
        if x.op == "attr" and x.args[0] is m and x.args[1] in ("model_geometry", "og"):
            return MG
        if x.op == "item" and x.args[0].op == "comp" and x.args[0].args[0] == "list" and x.args[0].args[3] is TRUE and isconst(x.args[1]):
            _, depth, src, _, v = x.args[0].args
            return rebuild(v, lambda y: T("item", src, x.args[1]) if y is T("elem", src, depth) else y)
        if x.op == "item":
            return d.ip.getitem(*x.args, d.st)
        return x
    return rebuild(t, f)


def check(rep):
    ix = rep.ix
    rep.rule("drawn", "every state type of the package is drawn, with the outline of that player's own geometry at that state's pose")
    rep.rule("owner", "the body is drawn in the colour of the player's geometry with the opacity asked for, and labelled with the player's name")
    rep.rule("parts", "moving parts are placed by that player's geometry for that state and command")
    rep.rule("lights", "each light has its own position and its own colour")
    rep.rule("redraw", "a redraw moves the patches of the first draw and creates none")
    rep.rule("unknown", "an unknown state type is rejected")
    qs = states(ix)
    rep.count("state types", len(qs), 6)
    for q in qs:
        one(rep, q)
    d = Draw(ix, None)
    S = var("state")
    u = ix.cls("SimContext").qual  # a class that is no state
    d.q = u
    d.draw(S, NONE, NONE)
    pc = FALSE
    for o in d.ip.raises:
        pc = lor(pc, o.st.pc)
    rep.equiv("unknown", "plot_player", Norm(), pc, TRUE, f"{d.fi.mod.path}:{d.fi.node.lineno} {d.fi.qual}")
    rep.rule("frame", "a frame shows every player as logged at the frame's time, and frames are evenly spaced from the beginning of the log to its end")
    frames(rep)


def one(rep, q):
    ix = rep.ix
    name = q.split(".")[-1]
    d = Draw(ix, q)
    w = f"{d.fi.mod.path}:{d.fi.node.lineno} {d.fi.qual}"
    fs = [f for f, _, _, _ in ix.dc_fields(q)]
    s1, s2 = var("state1"), var("state2")
    val, eff, made = d.draw(s1, NONE, NONE)
    bad = FALSE
    for o in d.ip.raises:
        bad = lor(bad, o.st.pc)
    if not rep.ob("drawn", name, val is not None and bad == FALSE, f"not drawn: {[show(o.value)[:100] for o in d.ip.raises]} when {show(bad)[:200]}", w):
        return
    rep.saw(d.res)
    fz = d.ip.freeze(val, d.st)
    ok = fz.op in ("tuple", "list") and len(fz.args) == 2 and all(a.op in ("list", "tuple") for a in fz.args)
    if not rep.ob("drawn", name + ".handles", ok and fz.args[0].args, f"returns {show(fz)[:200]}", w):
        return
    handles, lights = list(fz.args[0].args), list(fz.args[1].args)
    info = {h: (kind, args, dict(kw), pc) for h, kind, args, kw, pc in made}
    body = handles[0]
    kind, _, kw, pc = info.get(body, (None, None, {}, FALSE))
    rep.ob("owner", name + ".colour", kind == "fill" and tidy(kw.get("color", NONE), d) is T("attr", MG, "color") and kw.get("alpha") is var("alpha"), f"body drawn with {[(k, show(v)[:80]) for k, v in kw.items()]}", w)
    texts = [h for h in handles if info.get(h, ("",))[0] == "text"]
    for h in texts:
        a = info[h][1]
        rep.ob("owner", name + ".label", len(a) >= 3 and a[2] is PN, f"label is {show(a[2])[:80] if len(a) > 2 else a}", w)
    look(rep, d, name, s1, eff, handles, lights, fs, info, w, "first draw")
    # redraw for another state
    val2, eff2, made2 = d.draw(s2, val_item(d, val, 0), val_item(d, val, 1))
    rep.ob("redraw", name, not made2, f"{len(made2)} new patches", w)
    fz2 = d.ip.freeze(val2, d.st) if val2 is not None else NONE
    same = fz2.op in ("tuple", "list") and len(fz2.args) == 2 and list(fz2.args[0].args) == handles and list(fz2.args[1].args) == lights
    rep.ob("redraw", name + ".handles", same, f"returns {show(fz2)[:200]} instead of the patches of the first draw", w)
    look(rep, d, name, s2, eff2, handles, lights, fs, info, w, "redraw")


def val_item(d, v, i):
    return d.ip.getitem(v, const(i), d.st)


def last(d, eff, h, meth):
    """value that the patch finally has: [(guard, term)] with later writes first."""
    out = []
    for e in eff:
        if meth == "center" and e.kind == "store" and e.name == "center" and (e.ftarget or e.target) is h:
            out.append((e.guard, e.fvalue if e.fvalue is not None else e.value))
        elif e.kind == "call" and e.name == meth and e.target is h:
            out.append((e.guard, (e.fargs or e.args or (NONE,))[0]))
    r = None
    for g, v in out:
        r = v if g is TRUE or r is None and g is TRUE else (ite(g, v, r if r is not None else NONE))
    return tidy(r, d) if r is not None else None


def pts(t):
    """corner lists of the same points, however transposed or wrapped."""
    while t is not None and t.op == "fn" and t.args[0] in ("list", "tuple", "array") and len(t.args) == 2:
        t = t.args[1]
    return t


def look(rep, d, name, S, eff, handles, lights, fs, info, w, when):
    ix, ip = rep.ix, d.ip
    N = Norm()
    at = lambda f: T("attr", S, f)
    head = at("theta") if "theta" in fs and "psi" not in fs else at("psi")
    se2 = T("fn", "SE2", at("x"), at("y"), head)
    body = last(d, eff, handles[0], "set_xy")
    if name == "DynObstacleState":
        shape = T("attr", models_term(), "shape")
        from ..calls import poly_points  # noqa
        f = ix.func("apply_SE2_to_shapely_geo")
        want = ip.freeze(ip.call(T("func", f.qual), (shape, se2), (), d.st, None), d.st)
        want = ip.getattr(ip.getattr(ip.getattr(want, "exterior", d.st), "xy", d.st), "T", d.st)
        alt = [want, ip.getattr(ip.getattr(ip.freeze(ip.call(T("func", f.qual), (shape, se2), (), d.st, None), d.st), "exterior", d.st), "coords", d.st)]
        rep.ob("drawn", f"{name} ({when})", body is not None and pts(body) in [tidy(ip.freeze(a, d.st), d) for a in alt], f"body at {show(body)[:300] if body is not None else None}, expected {show(want)[:200]}", w)
        return
    want = T("fn", "xform", se2, geo("outline"))
    rep.ob("drawn", f"{name} ({when})", body is want, f"body at {show(body)[:300] if body is not None else None}, expected {show(want)[:200]}", w)
    for h in handles:
        if info.get(h, ("",))[0] == "text":
            p = last(d, eff, h, "set_position")
            ok = p is not None and p.op in ("tuple", "list") and len(p.args) == 2
            o = T("fn", "xform", se2, T("tuple", T("tuple", ZERO, ZERO)))
            good = ok and (list(p.args) == [T("item", T("item", o, ZERO), ZERO), T("item", T("item", o, ZERO), ONE)] or
                           (N.diff(p.args[0], at("x")) is None and N.diff(p.args[1], at("y")) is None))
            rep.ob("owner", f"{name}.label at ({when})", good, f"label at {show(p)[:300] if p is not None else None}", w)
    parts = [h for h in handles[1:] if info.get(h, ("",))[0] == "fill"]
    got = [last(d, eff, h, "set_xy") for h in parts]
    items = lambda t, n: [T("item", t, const(i)) for i in range(n)]
    x = lambda t: T("fn", "xform", se2, t)
    cmd = lambda f: T("attr", CMD, f)
    mass = T("cmp", "lt", T("attr", T("attr", models_term(), "model_params"), "m_v"), at("m"))
    base = name
    if base.startswith("VehicleState") or base == "DiffDriveState":
        outs = geo("get_rotated_wheels_outlines", at("delta")) if base.startswith("Vehicle") else geo("wheels_outlines")
        for i, g in enumerate(got):
            o = T("item", outs, const(i))
            m = ip.binop("MatMult", se2, o, d.st, None)
            sl = T("slice", NONE, const(2), NONE)
            w0 = ip.getitem(m, T("tuple", sl, T("slice", NONE, NONE, NONE)), d.st)
            w1 = ip.getattr(w0, "T", d.st)
            ex = tidy(ip.freeze(w1, d.st), d)
            ok = g is ex or N.diff(g, ex) is None if g is not None else False
            rep.ob("parts", f"{name} wheel {i} ({when})", ok, f"wheel at {show(g)[:300] if g is not None else None}, expected {show(ex)[:300]}", w)
        rep.ob("parts", f"{name} wheels ({when})", len(got) == 2, f"{len(got)} wheels drawn for a geometry with two", w)
    elif base in ("SpacecraftState", "RocketState", "SpaceshipState"):
        ang = {"RocketState": "phi", "SpaceshipState": "delta"}.get(base)
        th = geo("thrusters_outline_in_body_frame", *([at(ang)] if ang else []))
        n = 1 if base == "SpaceshipState" else 2
        want = [x(t) for t in items(th, n)]
        fl = {"RocketState": lambda: geo("flames_outline_in_body_frame", at("phi"), T("list", cmd("F_left"), cmd("F_right"))),
              "SpaceshipState": lambda: geo("flames_outline_in_body_frame", at("delta"), cmd("thrust"))}.get(base)
        flames = [x(t) for t in items(fl(), n)] if fl else []
        rep.ob("parts", f"{name} parts ({when})", len(got) == len(want) + len(flames), f"{len(got)} parts drawn, expected {len(want) + len(flames)}", w)
        for i, (g, e) in enumerate(zip(got, want)):
            rep.ob("parts", f"{name} thruster {i} ({when})", g is e, f"thruster at {show(g)[:300] if g is not None else None}, expected {show(e)[:200]}", w)
        for i, (g, e) in enumerate(zip(got[len(want):], flames)):
            on, off = (subst(g, {mass: TRUE}), subst(g, {mass: FALSE})) if g is not None else (None, None)
            rep.ob("parts", f"{name} flame {i} ({when})", on is e, f"flame at {show(on)[:300] if on is not None else None}, expected {show(e)[:300]}", w)
            rep.ob("parts", f"{name} flame {i} without fuel ({when})", off is not None and not [s for s in subterms(off) if s.op in ("mcall", "attr", "var")], f"without fuel the flame is at {show(off)[:200] if off is not None else None}", w)
    if name.startswith("VehicleState"):
        rep.ob("lights", f"{name} lights ({when})", len(lights) == len(LIGHTS), f"{len(lights)} lights drawn", w)
        seen = set()
        for i, h in enumerate(lights):
            c, col = last(d, eff, h, "center"), last(d, eff, h, "set_color")
            if c is None and h in info and when == "first draw":
                c = tidy(info[h][1][0], d)
            if col is None and h in info and when == "first draw":
                col = tidy(info[h][2].get("color", NONE), d)
            nm = col.args[1] if col is not None and col.op == "attr" and col.args[0] is LC else None
            o = T("fn", "xform", se2, T("tuple", T("tuple", var(f"{nm}.x"), var(f"{nm}.y"))))
            e = [T("item", T("item", o, ZERO), const(k)) for k in (0, 1)]
            ok = nm in LIGHTS and nm not in seen and c is not None and (c is T("item", o, ZERO) or c.op in ("tuple", "list") and list(c.args) == e)
            seen.add(nm)
            rep.ob("lights", f"{name} light {i} ({when})", ok, f"light coloured {show(col)[:100] if col is not None else None} is at {show(c)[:300] if c is not None else None}", w)


ANIM = ("SimRenderer.plot_player", "SimRenderer.plot_trajectories", "SimRenderer.plot_timevarying_goals", "SimRenderer.plot_arena", "SimRenderer.__init__",
        "adjust_axes_limits", "get_lights_colors_from_cmds", "SimLog.at_interp", "SimLog.get_init_time", "SimLog.get_last_time")


def mine(t):
    """one player of the log, however its name was enumerated."""
    return t.op == "elem"


def frames(rep):
    """what the callbacks given to the animation library draw."""
    ix = rep.ix
    ip, st = Interp(ix, opaque=set(ANIM)), State()
    fi = ix.func("create_animation")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    r = ip.run(fi, {}, st=st)
    calls = [e for e in r.effects if e.kind == "call" and str(e.name).endswith("FuncAnimation")]
    rep.count("animations", len(calls), 1)
    e = calls[0]
    d = dict(zip(("fig", "func", "frames", "init_func"), e.args))
    d.update(dict(e.kwargs))
    log = T("attr", var("sim_context"), "log")
    begin, end = (ip.freeze(ip.call_method(log, ix.find_method(ix.cls("SimLog").qual, m), (), (), st, None), st) for m in ("get_init_time", "get_last_time"))
    N = Norm()
    step = T("div", ip.freeze(d.get("interval", const(200)), st), const(1000))
    F = var("frame")
    for k, at in (("init_func", begin), ("func", T("add", begin, T("mul", F, step)))):
        if not rep.ob("frame", k, k in d, f"the animation has no {k}", w):
            continue
        n = len(ip.effects)
        ip.call(d[k], (F,) if k == "func" else (), (), st, None)
        effs = ip.effects[n:]
        draws = [x for x in effs if x.kind == "call" and x.name == "plot_player"]
        rep.count(f"players drawn by {k}", len(draws), 1)
        ps = [a.arg for a in ix.method("SimRenderer", "plot_player").node.args.args[1:]]
        for x in draws:
            a = dict(zip(ps, x.fargs or x.args))
            a.update(dict(x.fkwargs if getattr(x, "fkwargs", None) else x.kwargs))
            p = a.get("player_name", NONE)
            logged = [y.value for y in effs if y.kind == "call" and y.name == "at_interp"]
            where = x.where()
            entry = None
            s = a.get("state", NONE)
            if s.op == "attr" and s.args[1] == "state":
                entry = s.args[0]
            src = entry.args[0] if entry is not None and entry.op == "item" else None
            rep.ob("frame", f"{k} state", src is not None and unpair(entry.args[1]) is unpair(p) and mine(unpair(p)) and src.op == "mcall" and src.args[1] == "at_interp" and src.args[0] is log,
                   f"player {show(p)[:150]} is drawn with state {show(s)[:200]}", where)
            if src is None or src.op != "mcall":
                continue
            t = (list(src.args[2]) + [v for _, v in src.args[3]])[0]
            rep.eq("frame", f"{k} time", N, t, at, where)
            c = a.get("command", NONE)
            rep.ob("frame", f"{k} command", c is T("attr", entry, "commands"), f"command is {show(c)[:200]}", where)
            lc = a.get("lights_colors", NONE)
            want = ix.func("get_lights_colors_from_cmds")
            lp = [z.arg for z in want.node.args.args]
            la = {}
            if lc.op == "call":
                la = dict(zip(lp, lc.args[1]))
                la.update(dict(lc.args[2]))
            rep.ob("frame", f"{k} lights", lc.op == "call" and lc.args[0] == want.qual and la.get("cmds") is c, f"light colours are {show(lc)[:250]}", where)
            if k == "func":
                if "t" in la:
                    rep.eq("frame", "lights time", N, la["t"], t, where)
                for h in ("model_poly", "lights_patches"):
                    rep.ob("redraw", h, a.get(h, NONE) is not NONE, f"every frame draws new patches: {h} is not passed", where)
                    es = {z for z in subterms(a.get(h, NONE)) if z.op == "elem"}
                    one = unpair(p)
                    rep.ob("redraw", f"{h} own", a.get(h, NONE) is NONE or es <= {one, p.args[0] if p.op == "item" else p} and bool(es), f"the patches moved for {show(p)[:80]} are {show(a.get(h, NONE))[:200]}", where)
            for y in effs:
                if y.kind == "setitem" and y.fvalue is not None and contains(y.fvalue, lambda z: z is x.value):
                    key = y.name if isinstance(y.name, T) else None
                    rep.ob("frame", f"{k} handles", key is None or unpair(key) is unpair(p), f"patches of {show(p)[:100]} are kept under {show(key)[:100] if key is not None else ''}", y.where())
            if k == "func":
                for y in effs:
                    if y.kind == "call" and y.name == "plot_timevarying_goals":
                        b = dict(zip([z.arg for z in ix.method("SimRenderer", "plot_timevarying_goals").node.args.args[1:]], y.fargs or y.args))
                        b.update(dict(y.kwargs))
                        rep.ob("frame", "goal owner", mine(unpair(ip.freeze(b.get("player_name", NONE), st))), f"goal of {show(b.get('player_name', NONE))[:100]}", y.where())
                        rep.eq("frame", "goal time", N, ip.freeze(b.get("t", NONE), st), t, y.where())
    n = ip.freeze(d.get("frames", NONE), st)
    F1 = n.args[1] if n.op == "fn" and n.args[0] == "int" else n
    rep.eq("frame", "number of frames", N, F1, T("floordiv", T("sub", end, begin), step), w)


def unpair(t):
    return t.args[0] if t.op == "item" and t.args[1] is ZERO and t.args[0].op == "elem" else t
