"""Value-flow analysis of the sensors: what is visible, from where, through which obstacles, and what is passed on."""
import ast
from ..absint import Interp
from ..enumx import generators, draws
from ..effects import Effects
from ..norm import Norm
from ..scan import Scan
from ..simx import rec_field
from ..terms import *
from ..types import Ty
from .P08 import states

POV, FULL, SC, SELF = var("pov"), var("full_obs"), var("scenario"), var("self")
PL = T("attr", FULL, "players")


def check(rep):
    rep.rule("pure", "no sensor modifies the full observation, which all players share")
    rep.rule("identity", "the identity sensor returns the full observation")
    rep.rule("pose", "the visible region is computed once, after the sensor was put at the observer's own current pose")
    rep.rule("obstacles", "what can block the view is all static obstacles of the scenario and the occupancies of all other players")
    rep.rule("kept", "the observer is kept, and another player is kept iff the visible region intersects its occupancy")
    rep.rule("unmodified", "each player that is kept comes with its own observation, and the time is kept")
    rep.rule("rays", "a ray of the sensor reaches to the closest obstacle hit, and to the sensor's range if there is none")
    pure(rep)
    identity(rep)
    fov(rep)
    rays(rep)


def pure(rep):
    E = Effects(Scan(rep.ix))
    base = rep.ix.cls("ObsFilter").qual
    n = 0
    for q in rep.ix.subclasses(base):
        for c in rep.ix.mro(q):
            ci = rep.ix.classes[c]
            if "sense" in ci.methods and c != base:
                fn = ci.methods["sense"]
                bad = [(t, [y for y in x if not own(y[0], fn)]) for t, x in E.mut.get(c + ".sense", {}).items() if t[0] == "p" and t[1] == fn.args.args[2].arg]
                bad = [b for b in bad if b[1]]
                rep.ob("pure", f"{c}.sense", not bad, f"modifies {bad and bad[0][0][1]}: {bad and bad[0][1][0][1]}", f"{ci.mod.path}:{ci.methods['sense'].lineno} {c}.sense")
                n += 1
    rep.count("sensors", n, 4)


def own(n, fn):
    """a change of something reached through an attribute of the sensor that this method does not assign"""
    if not isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.func if isinstance(n, ast.Call) else None
    chain = []
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        if isinstance(n, ast.Attribute):
            chain.append(n.attr)
        n = n.value
    return len(chain) > 1 and isinstance(n, ast.Name) and n.id == fn.args.args[0].arg and not any(
        isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == chain[-1] and isinstance(x.value, ast.Name) and x.value.id == n.id for x in ast.walk(fn))


def identity(rep):
    fi = rep.ix.method("IdObsFilter", "sense")
    ip = Interp(rep.ix)
    r = ip.run(fi)
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    v = r.value
    full = var("full_obs")
    if v.op == "ref":
        v = T("list", *[ip.freeze(ip.getattr(v, f, r.state), r.state) for f in ("players", "time")])
        full = T("list", *[T("attr", full, f) for f in ("players", "time")])
    rep.eq("identity", "IdObsFilter.sense", Norm(), v, full, w)
    rep.holds("identity", "IdObsFilter.sense returns", Norm(), r.state.pc, w, what="returning")
    rep.funcs.update(ip.visited)


class Sense:
    """one call of the field-of-view filter"""

    def __init__(self, ix, state=None):
        self.calls = []
        fi = ix.method("FovObsFilter", "sense")
        base = ix.cls("Sensor").qual

        def view(ip, st, args, kwargs, node):
            recv = args[0]
            b = dict(kwargs)
            obs = b.get("obstacles", args[1] if len(args) > 1 else NONE)
            self.calls.append((recv, ip.freeze(obs, st), ip.freeze(ip.getattr(recv, "pose", st), st), st.pc, len(ip.loops)))
            return var("FOV")
        ov = {base + ".fov_as_polygon": view}
        for q in ix.subclasses(base):
            if "fov_as_polygon" in ix.classes[q].methods:
                ov[q + ".fov_as_polygon"] = view
        conv = ix.func("shapely2crPolygons").qual
        self.conv = conv
        self.ip = Interp(ix, opaque=(conv,), overrides=ov)
        if state is not None:
            self.ip.types[T("attr", T("item", PL, POV), "state")] = Ty(state)
        self.fi = fi
        self.r = self.ip.run(fi)
        self.where = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"


def fov(rep):
    qs = states(rep.ix)
    rep.count("state classes", len(qs), 5)
    for q in qs:
        S = Sense(rep.ix, q)
        w = S.where
        n = q.split(".")[-1]
        if not rep.ob("pose", f"visible region computed once ({n})", len(S.calls) == 1 and S.calls[0][4] == 0, f"the visible region is computed at {len(S.calls)} places per call", w):
            continue
        recv, obs, pose, pc, _ = S.calls[0]
        rep.ob("pose", f"own sensor ({n})", recv is T("attr", SELF, "sensor"), f"the region of {show(recv, 0, 3)} is used", w)
        rep.holds("pose", f"always computed ({n})", Norm(), pc, w, what="computing the visible region")
        s = T("attr", T("item", PL, POV), "state")
        fields = {f for f, _, _, _ in rep.ix.dc_fields(q)}
        want = [T("attr", s, "x"), T("attr", s, "y"), T("attr", s, "theta" if "theta" in fields else "psi")]
        p, th = field(S, pose, "p"), field(S, pose, "theta")
        got = [*(p.args if p is not None and p.op in ("arr", "tuple", "list") else (p or pose,)), th if th is not None else pose]
        for c, g, x in zip("xyt", got, want) if len(got) == 3 else [("pose", pose, T("tuple", *want))]:
            rep.eq("pose", f"{c} of the sensor ({n})", Norm(), g, x, w)
    for q in qs:
        S = Sense(rep.ix, q)
        rep.funcs.update(S.ip.visited)
        if S.calls:
            obstacles(rep, S)
            kept(rep, S)


def field(S, pose, name):
    if pose.op == "rec":
        return rec_field(pose, name)
    if pose.op == "fn" and pose.args[0] == "SE2":
        return T("arr", *pose.args[1:3]) if name == "p" else pose.args[3]
    return T("attr", pose, name)


def obstacles(rep, S):
    w, ix = S.where, rep.ix
    obs = S.calls[0][1]
    same, caches = cached(S)
    for a, v in caches.items():
        rep.ob("obstacles", f"attribute {a} only set here", only_here(ix, a, S.ip.visited), f"attribute {a}, which keeps the converted obstacles, is changed elsewhere", w)
    fresh = {T("attr", SELF, a): v for a, v in caches.items()}
    known = subst(obs, fresh)
    stat, dyn = [], []
    E = T("elem", "e", 0)
    for g in generators(known):
        if g[2] is None:
            loops, cond, part = g[0], g[1], g[3]
        else:
            loops, cond, part = g[0], g[1], g[2]
            if loops and part is loops[-1][0]:
                part, loops = loops[-1][1], loops[:-1]
        if part.op in ("list", "tuple") and not part.args:
            continue
        ds, sub = draws(loops)
        part, cond = subst(part, sub), subst(cond, sub)
        ok = len(ds) == 1 and part.op == "call" and part.args[0] == S.conv
        shape = list(part.args[1]) + [v for _, v in part.args[2]] if part.op == "call" else []
        if ok and len(shape) == 1:
            el, src = ds[0]
            k = var("E")
            sh, cond = subst(shape[0], {el: k}), subst(cond, {el: k})
            if src is T("attr", SC, "static_obstacles") and sh is T("attr", k, "shape"):
                stat.append(cond)
                continue
            if src is PL and sh is T("attr", T("item", PL, k), "occupancy"):
                dyn.append(cond)
                continue
            if src is T("values", PL) and sh is T("attr", k, "occupancy"):
                dyn.append(cond)
                continue
        rep.ob("obstacles", f"obstacle {show(part, 0, 2)[:60]}", False, f"the view is blocked by {show(part, 0, 5)[:200]} for {[show(s, 0, 3)[:60] for _, s in ds]}", w)
    rep.equiv("obstacles", "static obstacles", Norm(), lor(*stat), TRUE, w)
    rep.equiv("obstacles", "other players", Norm(), lor(*dyn), lnot(T("cmp", "eq", var("E"), POV)), w)


def cached(S):
    """Attributes the filter keeps between calls together with the scenario they were computed from: at any later call with
    that same scenario object, they hold the value computed from it."""
    keys = [e for e in S.r.effects if e.kind == "store" and e.ftarget is SELF and e.fvalue is SC and not e.loops]
    out = {}
    for k in keys:
        is_same = T("cmp", "is", *sorted((SC, T("attr", SELF, k.name)), key=id))
        if not any(Norm().equiv(k.guard, lnot(T("cmp", "is", a, b))) is None for a, b in ((SC, T("attr", SELF, k.name)), (T("attr", SELF, k.name), SC))):
            continue
        for e in S.r.effects:
            if e.kind == "store" and e.ftarget is SELF and e is not k and not e.loops and Norm().equiv(e.guard, k.guard) is None and not contains(e.fvalue, lambda x: x is FULL or x is POV or x is SELF):
                out[e.name] = e.fvalue
        if not init_none(S, k.name):
            out = {}
    return None, out


def init_none(S, name):
    ip = Interp(S.ip.ix)
    fi = S.ip.ix.method("FovObsFilter", "__init__")
    r = ip.run(fi)
    vs = [e.fvalue for e in r.effects if e.kind == "store" and e.name == name]
    return bool(vs) and all(v is NONE for v in vs) and only_here(S.ip.ix, name, S.ip.visited)


def only_here(ix, name, seen):
    for f in ix.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, (ast.Store, ast.Del)) and f.node.name != "__init__" and f.qual not in seen:
                if f.cls is not None and "FovObsFilter" in f.cls.qual or f.mod is ix.cls("FovObsFilter").mod:
                    return False
    return True


def kept(rep, S):
    w = S.where
    ip, st, v = S.ip, S.r.state, S.r.value
    F = var("FOV")
    K = var("E")

    def geo(t, el=None):
        def f(x):
            if x.op == "call" and x.args[0].split(".")[-1] in ("make_valid", "prep") and len(x.args[1]) == 1:
                return x.args[1][0]
            if x.op == "rec" and len(x.args[1]) > 1 and x.args[0].endswith(".PlayerObservations"):
                o = rec_field(x, "state")
                if o is not None and o.op == "attr" and o.args[1] == "state" and all(fv is T("attr", o.args[0], fn) for fn, fv in x.args[1]):
                    return o.args[0]
            if x.op == "mu" and x in ip.carried:
                a, b = ip.carried[x]
                if isinstance(a, T) and isinstance(b, T):
                    a = rebuild(a, f)
                    if a is F and rebuild(subst(b, {x: F}), f) is F:
                        return F
            if x.op == "ite":
                return ite(*x.args)
            if x.op == "raised":
                return var("RAISED")
            if x.op == "mcall" and x.args[1] in ("intersects", "disjoint") and len(x.args[2]) == 1:
                r = T("fn", "meets", *sorted((x.args[0], x.args[2][0]), key=lambda y: y is not F))
                return r if x.args[1] == "intersects" else lnot(r)
            if x.op == "call" and x.args[0] in ("shapely.intersects", "shapely.disjoint") and len(x.args[1]) == 2:
                r = T("fn", "meets", *sorted(x.args[1], key=lambda y: y is not F))
                return r if x.args[0].endswith(".intersects") else lnot(r)
            return x
        return rebuild(t, f)
    players = geo(ip.freeze(ip.getattr(v, "players", st), st))
    t = ip.freeze(ip.getattr(v, "time", st), st)
    wild = lambda t: rebuild(t, lambda x: var("RAISED") if x.op == "raised" else ite(*x.args) if x.op == "ite" else x)
    for o in ip.raises:
        if o.value.op == "call" and o.value.args[0] in ("dataclasses.FrozenInstanceError", "builtins.KeyError", "builtins.IndexError", "builtins.TypeError", "builtins.AttributeError"):
            rep.ob("kept", f"sense returns ({o.value.args[0].split('.')[-1]})", Norm().equiv(wild(o.st.pc), FALSE) is None, f"raises {show(o.value, 0, 2)} when {show(o.st.pc, 0, 4)[:200]}", f"{w}:{o.line if hasattr(o, 'line') else ''}")
    rep.eq("unmodified", "time", Norm(), t, T("attr", FULL, "time"), w)
    meets = T("fn", "meets", F, T("attr", T("item", PL, K), "occupancy"))
    is_pov = T("cmp", "eq", *sorted((K, POV), key=id))
    conds = []
    for g in generators(players):
        if g[2] is None:
            rep.ob("kept", f"players from {show(g[3], 0, 2)[:60]}", False, f"the output contains players of {show(g[3], 0, 4)[:200]}", w)
            continue
        loops, cond, kv = g
        if kv.op != "tuple" or len(kv.args) != 2:
            rep.ob("kept", f"players from {show(kv, 0, 2)[:60]}", False, f"the output contains {show(kv, 0, 4)[:200]}", w)
            continue
        ds, sub = draws(loops)
        k, val, cond = (geo(subst(x, sub)) for x in (*kv.args, cond))
        if not ds and k is POV:
            rep.eq("unmodified", "observer's own observation", Norm(), val, T("item", PL, POV), w)
            conds.append(land(cond, is_pov))
            continue
        if len(ds) == 1 and ds[0][1] is PL:
            k, val, cond = (geo(subst(x, {ds[0][0]: K})) for x in (k, val, cond))
            if k is K:
                N = Norm()
                # where the key is the observer's, so is the observation
                rep.eq("unmodified", "another player's observation", N, val, T("item", PL, K), w, when=cond)
                conds.append(cond)
                continue
        rep.ob("kept", f"players from {show(kv, 0, 2)[:60]}", False, f"the output contains {show(kv, 0, 4)[:200]} for {[show(s, 0, 3)[:60] for _, s in ds]}", w)
    rep.equiv("kept", "players kept", Norm(), lor(*conds), lor(is_pov, meets), w)


PX, PY, TH, RG, FV, RES = (var(n) for n in ("px", "py", "theta", "range", "fov", "resolution"))


def spread_of(e, src, k):
    """element k of an array of angles"""
    if src.op in ("add", "sub", "mul", "neg", "div"):
        return T(src.op, *[spread_of(e, a, k) for a in src.args])
    if src.op == "fn" and src.args[0] == "linspace" and len(src.args) == 4:
        lo, hi, n = src.args[1:]
        return T("add", lo, T("div", T("mul", k, T("sub", hi, lo)), T("sub", n, ONE)))
    return src


def count_of(src):
    if src.op == "fn" and src.args[0] == "linspace" and len(src.args) == 4:
        return [src.args[3]]
    if src.op == "fn" and src.args[0] == "range" and len(src.args) == 2:
        return [src.args[1]]
    return [n for a in src.args if isinstance(a, T) for n in count_of(a)] if src.op in ("add", "sub", "mul", "neg", "div", "fn") else []


def rays(rep):
    S = var("self")
    at = lambda n: T("attr", S, n)
    pose = at("pose")
    names = {T("item", T("attr", pose, "p"), const(0)): PX, T("item", T("attr", pose, "p"), const(1)): PY, T("attr", pose, "theta"): TH,
             at("range"): RG, at("field_of_view"): FV, at("angle_resolution"): RES}

    def named(t):
        return subst(subst(t, names), {T("attr", pose, "p"): T("arr", PX, PY)})
    omni = T("cmp", "lt", T("sub", T("mul", const(2), T("fn", "pi")), RES), FV)
    fi = rep.ix.method("FullRangeSensor", "fov_as_polygon")
    ip = Interp(rep.ix)
    r = ip.run(fi)
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    v = named(ip.freeze(r.value, r.state))
    disc = T("mcall", T("call", "shapely.geometry.Point", (PX, PY), ()), "buffer", (RG,), ())
    rep.ob("rays", "full-range sensor", v is disc or v is T("mcall", T("call", "shapely.geometry.Point", (T("arr", PX, PY),), ()), "buffer", (RG,), ()),
           f"the region is {show(v, 0, 6)[:200]}", w)
    rep.equiv("rays", "full-range sensor sees all around", Norm(), named(r.state.pc), omni, w)
    rep.funcs.update(ip.visited)
    fi = rep.ix.method("VisRangeSensor", "fov_as_polygon")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    for n in (0, 1, 2):
        hits = [[var(f"h{i}{c}") for c in "abcd"] for i in range(n)]
        cast, added = [], []

        def raytrace(ip, st, args, kwargs, node):
            cast.append((args, st.pc, len(ip.loops)))
            l = ip.new_ref("#list")
            st.heap[(l, "#v")] = T("list", *[T("arr", *h) for h in hits])
            return l
        ip = Interp(rep.ix, overrides={".raytrace": raytrace})
        ip.types[pose] = Ty(rep.ix.cls("SE2Transform").qual)
        r = ip.run(fi)
        rep.funcs.update(ip.visited)
        if n == 0:
            es = [e for e in r.effects if e.kind == "call" and e.name == "add_collision_object"]
            conds = [lor(*[e.guard for e in es if len(e.loops) == 1 and e.loops[0][0] is var("obstacles") and e.fargs and e.fargs[0].op == "elem" and e.fargs[0].args[0] is var("obstacles")])]
            rep.equiv("rays", "every obstacle blocks rays", Norm(), conds[0], TRUE, w)
        v = ip.freeze(r.value, r.state)
        if not rep.ob("rays", f"polygon ({n} hits)", v.op == "call" and len(v.args[1]) >= 1, f"the region is {show(v, 0, 3)[:200]}", w):
            continue
        N = Norm(assume=[lnot(T("cmp", "lt", RG, ZERO))])
        seen = 0
        for g in generators(v.args[1][0]):
            val, loops, cond = g[2] if g[2] is not None else g[3], g[0], named(g[1])
            if not loops:
                if g[2] is not None and named(val) is T("arr", PX, PY) and not seen:
                    rep.equiv("rays", f"the sensor itself is a corner ({n} hits)", N, cond, lnot(omni), w)
                    continue
                if g[2] is not None and val.op == "item" and val.args[1] is ZERO and seen:
                    continue    # closes the polygon
            if g[2] is None or len(loops) != 1:
                rep.ob("rays", f"corner {show(val, 0, 2)[:60]}", False, f"the polygon has corners {show(val, 0, 4)[:200]}", w)
                continue
            seen += 1
            e, src = loops[0]
            k = var("k")
            mine = [c for c in cast if c[2] == 1]
            if not rep.ob("rays", f"ray cast ({n} hits)", bool(mine) and mine[-1][1] is TRUE and len(mine[-1][0]) >= 5, "a ray is not always cast", w):
                continue
            a = [named(x) for x in mine[-1][0][1:5]]
            rep.eq("rays", f"ray starts at the sensor, x ({n} hits)", N, a[0], PX, w)
            rep.eq("rays", f"ray starts at the sensor, y ({n} hits)", N, a[1], PY, w)
            angle = {x.args[1] for x in subterms(a[2]) if x.op == "fn" and x.args[0] == "cos"}
            if not rep.ob("rays", f"ray direction ({n} hits)", len(angle) == 1, f"the ray ends at {show(a[2], 0, 5)[:200]}", w):
                continue
            th = angle.pop()
            tv = var("angle")
            end = [T("add", PX, T("mul", RG, T("fn", "cos", tv))), T("add", PY, T("mul", RG, T("fn", "sin", tv)))]
            rep.eq("rays", f"ray ends at the sensor's range, x ({n} hits)", N, subst(a[2], {th: tv}), end[0], w)
            rep.eq("rays", f"ray ends at the sensor's range, y ({n} hits)", N, subst(a[3], {th: tv}), end[1], w)
            src1 = named(src)
            e1 = named(e)
            step = named(subst(th, {e1: spread_of(e, src1, k) if src1.op != "fn" or src1.args[0] != "range" else k}))
            cs = count_of(src1)
            if rep.ob("rays", f"number of rays ({n} hits)", len(cs) == 1, f"the rays go over {show(src1, 0, 4)[:200]}", w):
                c = cs[0]
                want = T("sub", T("add", TH, T("div", T("mul", k, FV), T("sub", var("n"), ONE))), T("div", FV, const(2)))
                rep.eq("rays", f"ray angles cover the field of view ({n} hits)", Norm(), subst(step, {c: var("n")}), want, w)
                q = T("fn", "int", T("div", FV, RES))
                ok = any(Norm().diff(c, T("add", f, const(i))) is None for f in (q, T("fn", "ceil", T("div", FV, RES)), T("fn", "int", T("fn", "ceil", T("div", FV, RES)))) for i in (1, 2))
                rep.ob("rays", f"rays are as dense as the resolution ({n} hits)", ok, f"{show(c, 0, 4)} rays", w)
            val = subst(named(val), {th: tv})
            d2 = lambda p: T("add", T("mul", T("sub", p[0], PX), T("sub", p[0], PX)), T("mul", T("sub", p[1], PY), T("sub", p[1], PY)))
            best, dist = end, T("mul", RG, RG)
            for h in hits:
                for p in (h[:2], h[2:]):
                    c = T("cmp", "lt", d2(p), dist)
                    best, dist = [ite(c, x, y) for x, y in zip(p, best)], ite(c, d2(p), dist)
            rep.eq("rays", f"closest point, x ({n} hits)", N, coord(val, 0), best[0], w)
            rep.eq("rays", f"closest point, y ({n} hits)", N, coord(val, 1), best[1], w)
        rep.ob("rays", f"rays are corners ({n} hits)", seen == 1, f"{seen} groups of rays make up the polygon", w)



def coord(v, i):
    if v.op == "ite":
        return ite(v.args[0], coord(v.args[1], i), coord(v.args[2], i))
    if v.op in ("arr", "list", "tuple"):
        return v.args[i]
    if v.op == "fn" and v.args[0] == "slice_of" and isconst(v.args[2]):
        return T("item", v.args[1], const((v.args[2].args[0] or 0) + i))
    return T("item", v, const(i))
