"""Abstract execution of the drawing of static scenes for every kind of shape, comparing the patches and lines added with the coordinates of the shape."""
from fractions import Fraction

from ..absint import Interp, State
from ..norm import Norm
from ..terms import *
from ..types import Ty

AX, COLOR, ALPHA, Z = var("ax"), var("color"), var("alpha"), var("zorder")
STYLE = (("alpha", ALPHA), ("color", COLOR), ("zorder", Z))
GEOM = "shapely.geometry."
KINDS = {"Point": ("Point",), "MultiPoint": ("Point", "Point"), "LineString": ("LineString",), "LinearRing": ("LinearRing",),
         "MultiLineString": ("LineString", "LineString"), "MultiPolygon": (1, 0), "GeometryCollection": (1, "MultiPoint", "LineString")}
def _names(*ks):
    return frozenset(f"shapely.{m}{k}" for k in ks for m in ("", "geometry.", f"geometry.{k.lower()}.", "geometry.base.", "geometry.polygon.", "geometry.collection."))


MULTI = ("BaseMultipartGeometry", "BaseGeometry")
SUPER = {k: _names(k, "BaseGeometry", *(["LineString"] if k == "LinearRing" else []), *(MULTI if k.startswith("Multi") or k == "GeometryCollection" else [])) for k in (*KINDS, "Polygon")}
RECORD = ("add_patch", "plot", "add_line", "fill", "add_artist", "add_collection", "scatter")


class Draw:
    """Shapes of concrete structure with symbolic coordinates."""

    def __init__(self, ix):
        self.ix = ix
        self.drawn = []
        ov = {}

        def art(kind):
            def f(ip, st, args, kwargs, node):
                h = var(f"{kind}#{len(self.made)}")
                self.made[h] = (kind, tuple(ip.freeze(a, st) for a in args), {k: ip.freeze(v, st) for k, v in kwargs}, st.pc)
                return h
            return f
        for k in ("Circle", "Polygon", "PathPatch", "Ellipse", "Rectangle"):
            ov[f"matplotlib.patches.{k}"] = art(k.lower())
        ov["matplotlib.lines.Line2D"] = art("line")

        def rec(name):
            def f(ip, st, args, kwargs, node):
                self.drawn.append((name, tuple(ip.freeze(a, st) for a in args[1:]), {k: ip.freeze(v, st) for k, v in kwargs}, st.pc, node))
                return var(f"drawn#{len(self.drawn)}")
            return f
        for k in RECORD:
            ov["." + k] = rec(k)
        self.made = {}
        self.ip, self.st = Interp(ix, overrides=ov), State()
        self.ip.ext_types[AX] = ("matplotlib.axes.Axes", "matplotlib.axes._axes.Axes")
        self.viz = self.ip.instantiate(ix.cls("ShapelyViz").qual, (AX,), (), self.st, None)
        self.n = 0

    def pt(self):
        self.n += 1
        return var(f"x{self.n}"), var(f"y{self.n}")

    def put(self, v, **a):
        for k, x in a.items():
            self.st.heap[(v, k)] = x

    def coords(self, v, ps):
        co, xy = T("list", *[T("tuple", *p) for p in ps]), T("tuple", T("list", *[p[0] for p in ps]), T("list", *[p[1] for p in ps]))
        self.put(v, xy=xy, coords=co, is_empty=FALSE)
        self.put(co, xy=xy)

    def shape(self, kind, empty=False):
        """the shape and the primitives it is made of: (kind, points, depth)"""
        self.n += 1
        v = var(f"shape{self.n}")
        holes = 0
        if isinstance(kind, int):
            kind, holes = "Polygon", kind
        self.ip.ext_types[v] = SUPER[kind]
        self.put(v, geom_type=const(kind))
        if empty:
            self.put(v, is_empty=TRUE)
            return v, []
        self.put(v, is_empty=FALSE)
        if kind == "Point":
            p = self.pt()
            self.coords(v, [p])
            self.put(v, x=p[0], y=p[1])
            return v, [("point", [p])]
        if kind in ("LineString", "LinearRing"):
            ps = [self.pt() for _ in range(3)]
            ps += ps[:1] if kind == "LinearRing" else []
            self.coords(v, ps)
            return v, [("line", ps)]
        if kind == "Polygon":
            rings, out = [], []
            for i in range(holes + 1):
                r, ((_, ps),) = self.shape("LinearRing")
                rings.append(r)
                out.append(("hole" if i else "area", ps))
            self.put(v, exterior=rings[0], interiors=T("tuple", *rings[1:]))
            return v, out
        parts = [self.shape(k) for k in KINDS[kind]]
        self.put(v, geoms=T("tuple", *[p for p, _ in parts]))
        return v, [x for _, o in parts for x in o]


def pairs(t):
    """the points of a term: a sequence of pairs"""
    if t.op in ("tuple", "list", "arr") and all(x.op in ("tuple", "list", "arr") and len(x.args) == 2 for x in t.args):
        return [tuple(x.args) for x in t.args]
    return None


def listed(t):
    """nested lists of an array expression whose layout is known, else None"""
    if t.op in ("list", "tuple", "arr"):
        out = [listed(x) if x.op in ("list", "tuple", "arr", "fn", "item") else x for x in t.args]
        return [x if x is not None else y for x, y in zip(out, t.args)]
    if t.op == "fn" and len(t.args) == 2 and t.args[0] in ("vstack", "concatenate", "array", "column_stack", "stack", "list", "tuple"):
        a = listed(t.args[1])
        if a is None:
            return None
        if t.args[0] in ("array", "stack", "list", "tuple"):
            return a
        if t.args[0] == "column_stack":
            return [list(r) for r in zip(*a)] if all(isinstance(c, list) for c in a) else None
        if all(isinstance(r, list) for r in a):
            # rows are stacked as such, blocks of rows are joined
            return [y for r in a for y in (r if r and isinstance(r[0], list) else [r])]
        return None
    if t.op == "item":
        a, k = listed(t.args[0]), t.args[1]
        if not isinstance(a, list):
            return None
        ks = list(k.args) if k.op == "tuple" else [k]
        return sliced(a, ks)
    return None


def sliced(a, ks):
    if not ks:
        return a
    k = ks[0]
    if isconst(k) and isinstance(k.args[0], int):
        return sliced(a[k.args[0]], ks[1:]) if isinstance(a, list) and -len(a) <= k.args[0] < len(a) else None
    if k.op == "fn" and k.args[0] == "slice" or k.op == "slice":
        b = [x.args[0] if isinstance(x, T) and isconst(x) else 0.5 for x in (k.args[1:] if k.op == "fn" else k.args)]
        if 0.5 in b or not isinstance(a, list):
            return None
        return [sliced(x, ks[1:]) for x in a[slice(*b)]]
    return None


def rowpairs(t):
    a = listed(t)
    return [tuple(r) for r in a] if a is not None and all(isinstance(r, list) and len(r) == 2 for r in a) else pairs(t)


def zipped(xs, ys):
    if xs.op in ("tuple", "list", "arr") and ys.op in ("tuple", "list", "arr") and len(xs.args) == len(ys.args):
        return list(zip(xs.args, ys.args))
    return None


def primitive(D, e):
    """(kind, points, style) of one drawing call"""
    name, args, kw, pc, node = e
    if name in ("add_patch", "add_artist", "add_line") and args and args[0] in D.made:
        k, a, kw, _ = D.made[args[0]]
        kw = dict(kw)
        if k == "circle":
            c = a[0] if a else kw.pop("xy", None)
            return "circle", pairs(T("list", c)) if c is not None else None, kw
        if k == "polygon":
            c = a[0] if a else kw.pop("xy", None)
            return "polygon", pairs(c) if c is not None else None, kw
        if k == "line":
            return "line", zipped(*a[:2]), kw
    if name == "plot":
        return "line", zipped(*args[:2]) if len(args) >= 2 else None, kw
    if name == "fill":
        return "polygon", zipped(*args[:2]) if len(args) >= 2 else None, kw
    return name, None, kw


def ring(ps):
    ps = list(ps or ())
    return ps[:-1] if len(ps) > 1 and ps[0] == ps[-1] else ps


def check(rep):
    ix = rep.ix
    rep.rule("shape", "every point, line and polygon of a shape of any kind is drawn once, at its own coordinates and in the requested style")
    rep.rule("hole", "a hole of a polygon is drawn in the background colour, above the polygon itself")
    rep.rule("empty", "an empty shape draws nothing")
    rep.rule("arena", "every static obstacle and every static goal of the scene is drawn in its own colour; moving goals are not")
    rep.rule("goal", "a moving goal is drawn where it is at the time of the frame, in the colour of its player")
    rep.rule("plans", "planned trajectories are drawn through the positions of their states")
    rep.rule("view", "the view contains every player, or the followed player, or the requested area")
    shapes(rep)
    arena(rep)
    goals(rep)
    plans(rep)
    view(rep)
    animation(rep)


def shapes(rep):
    ix = rep.ix
    m = ix.method("ShapelyViz", "add_shape")
    w = f"{m.mod.path}:{m.node.lineno} {m.qual}"
    for kind in ("Point", "MultiPoint", "LineString", "LinearRing", "MultiLineString", 0, 1, 2, "MultiPolygon", "GeometryCollection"):
        D = Draw(ix)
        s, want = D.shape(kind)
        name = kind if isinstance(kind, str) else f"Polygon with {kind} holes"
        D.ip.call_method(D.viz, (ix.cls("ShapelyViz"), m.node), (s,), STYLE, D.st, None)
        rep.funcs |= D.ip.visited
        got = []
        for e in D.drawn:
            rep.ob("shape", f"{name} always", e[3] is TRUE, f"drawn only if {show(e[3])[:200]}", w)
            got.append(primitive(D, e))
        rep.ob("shape", f"{name} returns", D.st.pc is TRUE, f"drawing succeeds only if {show(D.st.pc)[:200]}", w)
        rep.ob("shape", f"{name} elements", len(got) == len(want), f"{len(got)} of {len(want)} elements are drawn", w)
        outline, used = {}, set()
        for k, ps in want:
            form = {"point": "circle", "line": "line", "area": "polygon", "hole": "polygon"}[k]
            norm = ring if form == "polygon" else list
            hit = [i for i, g in enumerate(got) if i not in used and g[0] == form and g[1] is not None and norm(g[1]) == norm(ps)]
            if not rep.ob("shape" if k != "hole" else "hole", f"{name} {k}", bool(hit), f"a {k} of {name} is not drawn at its coordinates: {[(g[0], g[1]) for g in got]}"[:400], w):
                continue
            i = hit[0]
            used.add(i)
            st = got[i][2]
            if k != "hole":
                for a, v in STYLE:
                    rep.ob("shape", f"{name} {k} {a}", st.get(a) is v, f"a {k} of {name} is drawn with {a} {show(st[a]) if a in st else 'unset'}", w)
                area = i
            else:
                z = st.get("zorder", NONE)
                col = st.get("facecolor", st.get("fc", st.get("color", NONE)))
                rep.ob("hole", f"{name} background", col is T("mcall", AX, "get_facecolor", (), ()), f"a hole is drawn in {show(col)[:100]}", w)
                above = z is Z and i > area or z.op == "add" and Z in z.args and any(isconst(x) and x.args[0] > 0 for x in z.args)
                rep.ob("hole", f"{name} above", above, f"a hole is drawn at level {show(z)[:100]}, {'after' if i > area else 'before'} its polygon at the given level", w)
    for kind in list(KINDS) + [0]:
        D = Draw(ix)
        s, _ = D.shape(kind, empty=True)
        D.ip.call_method(D.viz, (ix.cls("ShapelyViz"), m.node), (s,), STYLE, D.st, None)
        rep.ob("empty", str(kind or "Polygon"), not D.drawn and D.st.pc is TRUE, "something is drawn", w)


def arena(rep):
    ix = rep.ix
    m = ix.method("SimRenderer", "plot_arena")
    w = f"{m.mod.path}:{m.node.lineno} {m.qual}"
    got = []

    def add(ip, st, args, kwargs, node):
        got.append((tuple(ip.freeze(a, st) for a in args), {k: ip.freeze(v, st) for k, v in kwargs}, st.pc))
        return NONE
    add_q = ix.method("ShapelyViz", "add_shape")
    ip, st = Interp(ix, overrides={add_q.qual: add, ".add_shape": add}), State()
    me = var("self")
    ip.types[me] = Ty(ix.cls("SimRenderer").qual)
    ctx = T("attr", me, "sim_context")
    obs = [var("obstacle1"), var("obstacle2")]
    pl = [T("const", "p"), T("const", "q")]
    goals = [var("goal_p"), var("goal_q")]
    for o in obs:
        ip.types[o] = Ty(ix.cls("StaticObstacle").qual)
    st.heap[(T("attr", ctx, "dg_scenario"), "static_obstacles")] = T("tuple", *obs)
    st.heap[(ctx, "missions")] = T("dict", *[(p, g) for p, g in zip(pl, goals)])
    r = ip.run(m, {"ax": AX}, selfterm=me, st=st)
    rep.funcs |= ip.visited
    ps = [a.arg for a in add_q.node.args.args[1:]]
    calls = []
    for a, kw, pc in got:
        d = dict(zip(ps, a[1:]))
        d.update(kw)
        calls.append((d, pc))
    N = Norm()
    rep.counts["shapes of the arena"] = len(calls)
    models = T("attr", ctx, "models")
    want = [(T("attr", o, "shape"), TRUE, T("attr", T("attr", o, "geometry"), "color"), show(o)) for o in obs]
    for p, g in zip(pl, goals):
        want.append((T("mcall", g, "get_plottable_geometry", (), ()), T("attr", g, "is_static"), T("attr", T("attr", T("item", models, p), "model_geometry"), "color"), show(g)))
    rep.ob("arena", "elements", len(calls) == len(want), f"{len(calls)} shapes are drawn for two obstacles and two goals", w)
    for s, cond, col, nm in want:
        hit = [(d, pc) for d, pc in calls if unver(d.get("shape", NONE)) is s]
        if not rep.ob("arena", f"{nm} drawn", len(hit) == 1, f"{nm} is drawn {len(hit)} times: {[show(d.get('shape', NONE))[:80] for d, _ in calls]}"[:400], w):
            continue
        d, pc = hit[0]
        rep.equiv("arena", f"{nm} when", N, unver(pc), cond, w)
        rep.ob("arena", f"{nm} colour", unver(d.get("color", NONE)) is col, f"{nm} is drawn in {show(d.get('color', NONE))[:150]}", w)


def unver(t):
    """calls and reads regardless of how many effects precede them"""
    def f(x):
        if x.op == "mcall" and len(x.args) > 4:
            return T("mcall", *x.args[:4])
        if x.op == "attr" and len(x.args) > 2:
            return T("attr", *x.args[:2])
        if x.op == "versioned":
            return x.args[0]
        return x
    return rebuild(t, f)


def goals(rep):
    ix = rep.ix
    m = ix.method("SimRenderer", "plot_timevarying_goals")
    w = f"{m.mod.path}:{m.node.lineno} {m.qual}"
    me, goal, p, t, box = var("self"), var("goal"), T("const", "p"), var("t"), var("box")
    N = Norm()
    for given in (False, True):
        calls = []

        def rec(name):
            def f(ip, st, args, kwargs, node):
                a, k = tuple(ip.freeze(x, st) for x in args), {k: ip.freeze(v, st) for k, v in kwargs}
                h = var(f"{name}#{len(calls)}")
                calls.append((name, a, k, st.pc, h))
                return T("list", h) if name == "fill" else NONE if name == "set_xy" else h
            return f
        ov = {"." + k: rec(k) for k in ("fill", "set_xy", "add_patch")}
        ov["matplotlib.patches.Polygon"] = rec("polygon")
        ip, st = Interp(ix, overrides=ov), State()
        ip.types[me] = Ty(ix.cls("SimRenderer").qual)
        ip.ext_types[box] = ("matplotlib.patches.Polygon",)
        ctx = T("attr", me, "sim_context")
        st.heap[(ctx, "missions")] = T("dict", (p, goal))
        xs, ys = [var(f"x{i}") for i in range(3)], [var(f"y{i}") for i in range(3)]
        pts = list(zip(xs, ys))
        now = T("mcall", goal, "get_plottable_geometry", (t,), ())
        ip.overrides[".get_plottable_geometry"] = lambda ip, st, a, k, node: geometry(ip, st, a[1:], dict(k))
        got = []

        def geometry(ip, st, a, k):
            at = a[0] if a else k.get("at", ZERO)
            got.append(at)
            v = var("area")
            ext = var("exterior")
            st.heap[(v, "exterior")] = ext
            st.heap[(ext, "xy")] = T("tuple", T("list", *xs), T("list", *ys))
            co = T("list", *[T("tuple", *q) for q in pts])
            st.heap[(ext, "coords")] = co
            st.heap[(co, "xy")] = T("tuple", T("list", *xs), T("list", *ys))
            return v
        r = ip.run(m, {"ax": AX, "player_name": p, "t": t, "goal_box": box if given else NONE}, selfterm=me, st=st)
        rep.funcs |= ip.visited
        what = "redrawn" if given else "first drawn"
        moving = lnot(T("attr", goal, "is_static"))
        for at in got:
            rep.eq("goal", f"{what} time", N, at, t, w)
        rep.eq("goal", f"{what} static", N, unver(r.value), NONE, w, T("attr", goal, "is_static"))
        sets = [c for c in calls if c[0] == "set_xy"]
        if not rep.ob("goal", f"{what} outline", len(sets) == 1, f"the outline of a moving goal is set {len(sets)} times", w):
            continue
        n, a, k, pc, h = sets[0]
        xy = a[1] if len(a) > 1 else k.get("xy", NONE)
        rep.equiv("goal", f"{what} when", N, unver(pc), moving, w)
        rep.ob("goal", f"{what} points", ring(pairs(xy)) == ring(pts), f"a moving goal is drawn as {show(xy)[:300]}", w)
        made = [c for c in calls if c[0] != "set_xy"]
        col = T("attr", T("attr", T("item", T("attr", ctx, "models"), p), "model_geometry"), "color")
        if given:
            rep.ob("goal", f"{what} patch", not made and a[0] is box, "every frame draws another patch", w)
            rep.eq("goal", f"{what} returns", N, unver(r.value), box, w, moving)
        elif rep.ob("goal", f"{what} patch", len(made) == 1 and a[0] is made[0][4], f"{len(made)} patches are made", w):
            c = unver(made[0][2].get("color", made[0][2].get("facecolor", NONE)))
            rep.ob("goal", f"{what} colour", c is col, f"a moving goal is drawn in {show(c)[:150]}", w)
            rep.eq("goal", f"{what} returns", N, unver(r.value), made[0][4], w, moving)


def plans(rep):
    ix = rep.ix
    fi = ix.func("plot_trajectories", "simulator_visualisation")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    for n in (1, 2):
        for given in (False, True):
            calls = []

            def rec(name):
                def f(ip, st, args, kwargs, node):
                    a, k = tuple(ip.freeze(x, st) for x in args), {k: ip.freeze(v, st) for k, v in kwargs}
                    h = var(f"{name}#{len(calls)}")
                    ip.ext_types[h] = ("matplotlib.collections.Collection",)
                    calls.append((name, a, k, st.pc, h))
                    return h
                return f
            ov = {"." + k: rec(k) for k in ("set_segments", "set_offsets", "set_color", "scatter", "add_collection", "set_paths", "set_verts")}
            ov["matplotlib.collections.LineCollection"] = rec("lines")
            ip, st = Interp(ix, overrides=ov), State()
            q = ix.cls("Trajectory").qual
            trajs, want = [], []
            for i in range(n):
                states = [var(f"s{i}{j}") for j in range(2 + i)]
                ts = [const(j) for j in range(len(states))]
                trajs.append(ip.instantiate(q, (T("tuple", *ts), T("tuple", *states)), (), st, None))
                want.append([(T("attr", s, "x"), T("attr", s, "y")) for s in states])
            L, P = var("lines"), var("points")
            for v in (L, P, AX):
                ip.ext_types[v] = ("matplotlib.artist",)
            colors = var("colors")
            a = {"ax": AX, "trajectories": T("list", *trajs), "colors": colors, "traj_lines": L if given else NONE, "traj_points": P if given else NONE}
            st.pc = TRUE
            r = ip.run(fi, a, st=st)
            rep.funcs |= ip.visited
            nm = f"{n} trajectories {'redrawn' if given else 'first drawn'}"
            v = r.value
            lines = [c for c in calls if c[0] in ("set_segments", "set_verts", "set_paths")]
            made = [c for c in calls if c[0] == "lines"]
            added = [x for c in calls if c[0] == "add_collection" for x in c[1][1:]]
            src = None
            if lines:
                c = lines[-1]
                src = c[1][1] if len(c[1]) > 1 else next(iter(c[2].values()), None)
                h = c[1][0]
            elif made and not given:
                src = made[0][1][0] if made[0][1] else made[0][2].get("segments")
                h = made[0][4]
            if not rep.ob("plans", nm, src is not None, "no lines are drawn", w):
                continue
            seg = [rowpairs(x) for x in src.args] if src.op in ("list", "tuple", "arr") else None
            rep.ob("plans", f"{nm} lines", seg == want, f"the trajectories are drawn through {show(src)[:300]}", w)
            rep.ob("plans", f"{nm} on the axes", h is L if given else bool(made) and h is made[0][4] and h in added, "the lines are not those on the axes", w)
            rep.ob("plans", f"{nm} handles", v.op == "tuple" and len(v.args) == 2 and v.args[0] is h, f"the lines to redraw are reported as {show(v)[:200]}", w)
            off = [c for c in calls if c[0] == "set_offsets"]
            if off:
                o = off[-1][1][1]
                got = rowpairs(o)
                rep.ob("plans", f"{nm} markers", got == [x for s in want for x in s], f"the markers are at {show(o)[:300]}", w)
            col = [c[1][1] for c in calls if c[0] == "set_color" and c[1][0] is h] or [c[2].get("colors", c[2].get("color")) for c in made]
            rep.ob("plans", f"{nm} colours", bool(col) and col[-1] is colors, "the lines are not in the requested colours", w)


def view(rep):
    ix = rep.ix
    fi = ix.func("adjust_axes_limits")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    S = [var("state_p"), var("state_q")]
    pl = [T("const", "p"), T("const", "q")]
    area = [[var("left"), var("right")], [var("bottom"), var("top")]]
    for name, limits in (("auto", T("const", "auto")), ("follow", pl[0]), ("area", T("list", *[T("list", *r) for r in area]))):
        calls = []

        def rec(nm):
            def f(ip, st, args, kwargs, node):
                calls.append((nm, tuple(ip.freeze(x, st) for x in args[1:]), {k: ip.freeze(v, st) for k, v in kwargs}, st.pc))
                return NONE
            return f
        ip, st = Interp(ix, overrides={"." + k: rec(k) for k in ("axis", "set_xlim", "set_ylim", "set_xbound", "set_ybound", "autoscale", "set")}), State()
        q = ix.cls("VehicleState").qual
        for s in S:
            ip.types[s] = Ty(q)
            ip.exact.add(s)
        ip.run(fi, {"ax": AX, "plot_limits": limits, "players_states": T("dict", *zip(pl, S))}, st=st)
        rep.funcs |= ip.visited
        box = {}
        for nm, a, k, pc in calls:
            if nm == "autoscale":
                rep.ob("view", f"{name} autoscale", name == "auto" and plain(pc) is FALSE, f"the view is left to the plotting library if {show(pc)[:200]}", w)
                continue
            if nm in ("set_xlim", "set_xbound", "set_ylim", "set_ybound"):
                d = nm[4]
                b = list(a[0].args) if len(a) == 1 and a[0].op in ("tuple", "list") else list(a)
                names = ("left", "right") if d == "x" else ("bottom", "top")
                box[d + "min"] = b[0] if b else k.get(names[0], k.get(d + "min"))
                box[d + "max"] = b[1] if len(b) > 1 else k.get(names[1], k.get(d + "max"))
            elif a and a[0].op in ("list", "tuple") and len(a[0].args) == 4:
                box.update(zip(("xmin", "xmax", "ymin", "ymax"), a[0].args))
            else:
                box.update(k)
                for d in "xy":
                    v = k.get(d + "lim")
                    if v is not None and v.op in ("tuple", "list"):
                        box[d + "min"], box[d + "max"] = v.args
        if not rep.ob("view", f"{name} limits", all(box.get(k) is not None for k in ("xmin", "xmax", "ymin", "ymax")), f"only {sorted(box)} are set", w):
            continue
        if name == "area":
            for d, r in zip("xy", area):
                for k, v in zip(("min", "max"), r):
                    rep.ob("view", f"area {d}{k}", box[d + k] is v, f"{d}{k} is {show(box[d + k])[:150]}", w)
            continue
        for s, p in zip(S if name == "auto" else S[:1], pl):
            for d in "xy":
                c = T("attr", s, d)
                for k, lo, hi in ((d + "min", box[d + "min"], c), (d + "max", c, box[d + "max"])):
                    rep.holds("view", f"{name} {k} of {p.args[0]}", Norm(), plain(T("cmp", "lt", lo, hi)), w, what=f"the player being inside the {k} of the view")


def infinite(x):
    return isconst(x) and isinstance(x.args[0], float) and x.args[0] in (float("inf"), float("-inf"))


def plain(t):
    """element-wise lists: choices, replaced elements and clipping of lists whose layout is known; coordinates are finite"""
    seq = lambda x: x.op in ("list", "arr", "tuple")

    def f(x):
        if x.op == "ite" and seq(x.args[1]) and x.args[1].op == x.args[2].op and len(x.args[1].args) == len(x.args[2].args):
            return T(x.args[1].op, *[f(ite(x.args[0], a, b)) for a, b in zip(x.args[1].args, x.args[2].args)])
        if x.op == "dset" and seq(x.args[0]) and isconst(x.args[1]) and 0 <= x.args[1].args[0] < len(x.args[0].args):
            i = int(x.args[1].args[0])
            return T(x.args[0].op, *x.args[0].args[:i], x.args[2], *x.args[0].args[i + 1:])
        if x.op == "item" and seq(x.args[0]) and isconst(x.args[1]) and isinstance(x.args[1].args[0], (int, Fraction)) and -len(x.args[0].args) <= x.args[1].args[0] < len(x.args[0].args):
            return x.args[0].args[int(x.args[1].args[0])]
        if x.op == "fn" and x.args[0] in ("min", "max") and len(x.args) == 3 and sum(seq(y) for y in x.args[1:]) == 1:
            arr = next(y for y in x.args[1:] if seq(y))
            return T("arr", *[T("fn", x.args[0], *[z if y is arr else y for y in x.args[1:]]) for z in arr.args])
        if x.op == "cmp" and x.args[0] in ("eq", "lt") and any(infinite(y) for y in x.args[1:]):
            a, b = x.args[1:]
            if any(y.op == "fn" and y.args[0] in ("max", "min") and all(seq(z) for z in (y.args[1].args if len(y.args) == 2 and seq(y.args[1]) else y.args[1:])) for y in (a, b)):
                return FALSE if x.args[0] == "eq" else x   # a list is no number
            if not contains(x, lambda y: y.op == "ite"):
                if x.args[0] == "eq":
                    return const(a is b)
                u, v = (y.args[0] if infinite(y) else 0.0 for y in (a, b))
                return const(u < v)
        if x.op == "not":
            return lnot(x.args[0])
        if x.op in ("and", "or"):
            return land(*x.args) if x.op == "and" else lor(*x.args)
        if x.op == "ite":
            return ite(*x.args)
        return x
    return rebuild(t, f)


def animation(rep):
    """trajectories logged by a player, at the start or only later, are drawn in every frame they are logged for"""
    ix = rep.ix
    fi = ix.func("create_animation")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    pq, lq = ix.method("SimRenderer", "plot_trajectories"), ix.method("SimLog", "at_interp")
    names = [a.arg for a in pq.node.args.args[1:]]
    for first in (True, False):
        calls, frame = [], [0]
        plan = [[T("tuple", var(f"trajectory{k}{i}"), var(f"color{k}{i}")) for i in range(2)] for k in range(3)]

        def entry(ip, st, args, kwargs, node):
            k = frame[0]
            ex = NONE if k == 0 and not first else T("list", *plan[k])
            q = ix.cls("LogEntry").qual
            e = ip.instantiate(q, (), tuple(sorted({"state": var(f"state{k}"), "commands": var(f"commands{k}"), "extra": ex, "info": var("info")}.items())), st, None)
            return T("dict", (T("const", "p"), e))

        def draw(ip, st, args, kwargs, node):
            d = dict(zip(names, (ip.freeze(a, st) for a in args[1:])))
            d.update({k: ip.freeze(v, st) for k, v in kwargs})
            n = len(calls)
            calls.append((frame[0], d, st.pc))
            return T("tuple", var(f"lines{n}"), var(f"points{n}"))
        pair = lambda n: lambda ip, st, a, k, nd: T("tuple", var(f"{n}a"), var(f"{n}b"))
        op = {"SimRenderer.__init__", "adjust_axes_limits", "get_lights_colors_from_cmds", "SimRenderer.plot_timevarying_goals", "SimRenderer.plot_arena", "SimLog.get_init_time", "SimLog.get_last_time"}

        def unzip(ip, st, a, k, nd):
            rows = list(ip.freeze(a[0], st).args)
            return T("tuple", *[T("list", *[x.args[j] for x in rows]) for j in range(2)])
        ip, st = Interp(ix, opaque=op, overrides={"toolz.sandbox.unzip": unzip, "toolz.sandbox.core.unzip": unzip, lq.qual: entry, pq.qual: draw, ix.method("SimRenderer", "plot_player").qual: pair("patch"), ".at_interp": entry}), State()
        r = ip.run(fi, {}, st=st)
        es = [e for e in r.effects if e.kind == "call" and str(e.name).endswith("FuncAnimation")]
        if not rep.ob("plans", "animation", len(es) == 1, "no animation is made", w):
            return
        d = dict(zip(("fig", "func", "frames", "init_func"), es[0].args))
        d.update(dict(es[0].kwargs))
        st.pc = TRUE
        for k in range(3):
            frame[0] = k
            n = len(calls)
            ip.call(d["func" if k else "init_func"], (const(k),) if k else (), (), st, None)
            rep.funcs |= ip.visited
            nm = f"frame {k}, logged from {'the start' if first else 'the next frame'}"
            if k == 0 and not first:
                rep.ob("plans", nm, len(calls) == n, "trajectories are drawn where none are logged", w)
                continue
            if not rep.ob("plans", nm, len(calls) == n + 1 and calls[n][2] is TRUE, f"the trajectories are drawn {len(calls) - n} times{' if ' + show(calls[n][2])[:200] if len(calls) > n else ''}", w):
                continue
            a = calls[n][1]
            rep.ob("plans", f"{nm}: player", a.get("player_name") is T("const", "p"), f"drawn for {show(a.get('player_name', NONE))}", w)
            for key, j in (("trajectories", 0), ("colors", 1)):
                t = a.get(key, NONE)
                rep.ob("plans", f"{nm}: {key}", t.op in ("list", "tuple") and list(t.args) == [x.args[j] for x in plan[k]], f"{key} are {show(t)[:200]}", w)
            drawn = [i for i in range(n)]
            for key, h in (("traj_lines", "lines"), ("traj_points", "points")):
                t = a.get(key, NONE)
                rep.ob("plans", f"{nm}: {key}", t is (var(f"{h}{drawn[-1]}") if drawn else NONE), f"{key} to move are {show(t)[:200]}", w)
