"""The outline, wheels, lights and thrusters of every geometry as exact points over its parameters, compared with its stated measures and with each other."""
from ..absint import Interp, State
from ..norm import Norm
from ..terms import *
from ..types import Ty
from .P16 import le, lt
from .P48 import ring

ASSUMES = ["lengths and radii are positive; a wheel fits between the front axle and the front end, and a vehicle is wider between its wheels than the wheels are"]
G = var("geometry")
TWO, HALF = const(2), T("div", ONE, const(2))
neg = lambda a: T("neg", a)
add = lambda *a: a[0] if len(a) == 1 else T("add", a[0], add(*a[1:]))
sub = lambda a, b: T("sub", a, b)
mul = lambda a, b: T("mul", a, b)
fn = lambda n, *a: T("fn", n, *a)
g = lambda k: T("attr", G, k)


class Geo:
    def __init__(self, rep, cls, **preset):
        self.rep, self.ix, self.name = rep, rep.ix, cls
        self.q = rep.ix.cls(cls).qual
        self.ip, self.st = Interp(rep.ix), State()
        self.ip.types[G] = Ty(self.q)
        self.ip.exact.add(G)
        for k, v in preset.items():
            self.st.heap[(G, k)] = v

    def has(self, name):
        return self.ix.find_method(self.q, name) is not None

    def at(self, name, *args):
        st = self.st.fork()
        v = self.ip.getattr(G, name, st)
        if args:
            v = self.ip.call(v, args, (), st, None)
        return self.ip.freeze(v, st)

    def where(self, name):
        m = self.ix.find_method(self.q, name)
        if m is None:
            c = self.ix.classes[self.q]
            return f"{c.mod.path}:{c.node.lineno} {self.q}"
        return f"{m[0].mod.path}:{m[1].lineno} {m[0].qual}.{name}"

    def done(self):
        self.rep.funcs |= self.ip.visited
        self.rep.notes += self.ip.notes


def points(t):
    """coordinate pairs of a listed outline: a sequence of points, or rows of coordinates"""
    if t.op not in ("list", "tuple", "arr"):
        return None
    if t.op == "arr" and len(t.args) in (2, 3) and all(r.op == "arr" and len(r.args) > 3 for r in t.args):
        return list(zip(t.args[0].args, t.args[1].args))
    out = [tuple(p.args[:2]) for p in t.args if p.op in ("list", "tuple", "arr") and len(p.args) >= 2]
    return out if len(out) == len(t.args) else None


def call_of(t, name):
    return t.op in ("call", "fn", "mcall") and any(isinstance(a, str) and a.split(".")[-1] == name for a in t.args[:2])


def args_of(t):
    return [a for a in t.args[(1 if t.op != "mcall" else 2):]][0] if t.op in ("call", "mcall") else t.args[1:]


def region(t):
    """the pieces a body is made of: ("poly", points) and ("oval", x, y, rx, ry); None where not understood"""
    if t.op == "fn" and t.args[0] in ("tuple", "list") and len(t.args) == 2 or t.op == "call" and t.args[0] in ("tuple", "list") and len(t.args[1]) == 1:
        return region(args_of(t)[0])
    p = points(t)
    if p is not None:
        return [("poly", p)]
    if t.op == "attr" and t.args[1] in ("coords", "exterior", "boundary"):
        return region(t.args[0])
    # zip(x coordinates, y coordinates)
    if call_of(t, "zip"):
        a = args_of(t)
        if len(a) == 2 and all(x.op == "item" and isconst(x.args[1]) for x in a) and [x.args[1].args[0] for x in a] == [0, 1] and a[0].args[0] is a[1].args[0]:
            xy = a[0].args[0]
            return region(xy.args[0]) if xy.op == "attr" and xy.args[1] == "xy" else None
        return None
    if call_of(t, "Polygon") or call_of(t, "LinearRing"):
        a = args_of(t)
        return region(a[0]) if len(a) == 1 else None
    if call_of(t, "unary_union") or call_of(t, "union_all"):
        a = args_of(t)
        if len(a) == 1 and a[0].op in ("list", "tuple"):
            rs = [region(x) for x in a[0].args]
            return None if None in rs else [x for r in rs for x in r]
        return None
    if t.op == "mcall" and t.args[1] == "union" and len(t.args[2]) == 1:
        a, b = region(t.args[0]), region(t.args[2][0])
        return None if a is None or b is None else a + b
    if t.op == "mcall" and t.args[1] == "buffer" and call_of(t.args[0], "Point") and len(t.args[2]) >= 1:
        c = args_of(t.args[0])
        if len(c) == 1 and c[0].op in ("tuple", "list", "arr"):
            c = c[0].args
        return [("oval", c[0], c[1], t.args[2][0], t.args[2][0])] if len(c) == 2 else None
    if call_of(t, "scale"):
        a = args_of(t)
        kw = dict(t.args[2]) if t.op == "call" and len(t.args) > 2 else {}
        fx, fy = (a[1] if len(a) > 1 else kw.get("xfact", ONE)), (a[2] if len(a) > 2 else kw.get("yfact", ONE))
        r = region(a[0])
        if r is None or len(a) > 3 or set(kw) - {"xfact", "yfact"}:
            return None
        if len(r) == 1 and r[0][0] == "oval":
            _, x, y, rx, ry = r[0]
            return [("oval", x, y, mul(rx, fx), mul(ry, fy))]
    return None


def extremes(r):
    """points whose hull is as large as the region in the directions of the axes"""
    out = []
    for p in r:
        if p[0] == "poly":
            out += p[1]
        else:
            _, x, y, rx, ry = p
            out += [(add(x, rx), y), (sub(x, rx), y), (x, add(y, ry)), (x, sub(y, ry))]
    return out


def same_region(N, a, b):
    eq = lambda p, q: p[0] == q[0] and (ring(N, p[1], open_(N, q[1])) if p[0] == "poly" else all(N.diff(x, y) is None for x, y in zip(p[1:], q[1:])))
    return len(a) == len(b) and all(any(eq(p, q) for q in b) for p in a)


def open_(N, p):
    return p[:-1] if len(p) > 1 and all(N.diff(x, y) is None for x, y in zip(p[0], p[-1])) else p


def mirrored(r):
    return [("poly", [(x, neg(y)) for x, y in p[1]]) if p[0] == "poly" else ("oval", p[1], neg(p[2]), *p[3:]) for p in r]


def body(rep, o, assume, back, front, half, tag=""):
    """the outline reaches exactly from back to front and to half a width on either side, is the same on both sides and is what collides"""
    N = Norm(assume=assume)
    name, w = o.name + tag, o.where("outline")
    out, poly = o.at("outline"), o.at("outline_as_polygon")
    r, p = region(out), region(poly)
    if not rep.ob("body", name, r is not None and p is not None, f"outline {show(out)[:250]} or polygon {show(poly)[:250]} is not understood", w):
        return None
    rep.ob("body", f"{name}, polygon", same_region(N, r, p), f"the polygon {show(poly)[:200]} is not the outline {show(out)[:200]}", o.where("outline_as_polygon"))
    rep.ob("body", f"{name}, both sides", same_region(N, r, mirrored(r)), f"left and right side differ: {show(out)[:300]}", w)
    xs = extremes(r)
    for k, i, bound, sgn in (("back", 0, back, -1), ("front", 0, front, 1), ("left", 1, half, 1)):
        v = [q[i] for q in xs]
        c = [le(x, bound) if sgn > 0 else le(bound, x) for x in v]
        for x in c:
            rep.holds("body", f"{name}, {k}", N, x, w, what=f"a point of the outline lies beyond {show(bound)}")
        rep.ob("body", f"{name}, {k} reached", any(N.diff(x, bound) is None for x in v), f"no point of the outline is at {show(bound)}", w)
    rep.holds("body", f"{name}, centre of mass", N, land(lt(back, ZERO), lt(ZERO, front)), w, what="the centre of mass is outside")
    return r


def check(rep):
    ix = rep.ix
    rep.rule("body", "an outline is symmetric, as long and wide as stated, around the centre of mass and the same as the polygon that collides")
    rep.rule("wheels", "wheels are at the ends of the axles, inside of the body, and only the front ones turn, by the steering angle")
    rep.rule("lights", "lights are at the corners they are named after, on the front or rear edge of the body")
    rep.rule("thrusters", "thrusters are in pairs on both sides, or on the axis")
    for kind in ("car", "truck", "motorcycle", "bicycle"):
        vehicle(rep, kind)
    diffdrive(rep)
    pos = lambda *k: [lt(ZERO, g(x)) for x in k]
    o = Geo(rep, "RocketGeometry")
    body(rep, o, pos("w_half", "l_c", "l_f", "l_m", "l_r"), neg(g("l_r")), add(g("l_f"), g("l_m"), g("l_c")), mul(HALF, o.at("width")))
    rep.eq("body", "RocketGeometry, width", Norm(), o.at("width"), mul(TWO, g("w_half")), o.where("width"))
    o.done()
    o = Geo(rep, "SpaceshipGeometry")
    body(rep, o, pos("w_half", "l_c", "l_f", "l_r"), neg(g("l_r")), add(g("l_f"), g("l_c")), mul(HALF, o.at("width")))
    rep.eq("body", "SpaceshipGeometry, width", Norm(), o.at("width"), mul(TWO, g("w_half")), o.where("width"))
    rep.eq("body", "SpaceshipGeometry, length", Norm(), o.at("l"), add(g("l_r"), g("l_f"), g("l_c")), o.where("l"))
    o.done()
    o = Geo(rep, "SpacecraftGeometry")
    body(rep, o, pos("w_half", "lr") + [lt(const(1), g("lf")), lt(g("lf"), g("lr"))], neg(g("lr")), g("lf"), mul(HALF, o.at("width")))
    rep.eq("body", "SpacecraftGeometry, width", Norm(), o.at("width"), mul(TWO, g("w_half")), o.where("width"))
    thrusters(rep, o)
    o.done()
    o = Geo(rep, "PedestrianGeometry")
    N = Norm()
    out, poly = o.at("outline"), o.at("outline_as_polygon")
    r, p = region(out), region(poly)
    w = o.where("outline")
    if rep.ob("body", "PedestrianGeometry", r is not None and p is not None, f"outline {show(out)[:250]} or polygon {show(poly)[:250]} is not understood", w):
        rep.ob("body", "PedestrianGeometry, polygon", same_region(N, r, p), f"the polygon {show(poly)[:200]} is not the outline {show(out)[:200]}", w)
        rep.ob("body", "PedestrianGeometry, both sides", same_region(N, r, mirrored(r)), "left and right side differ", w)
    o.done()


def vehicle(rep, kind):
    o = Geo(rep, "VehicleGeometry", vehicle_type=const(kind))
    tag = f", {kind}"
    shape = o.at("wheel_shape")
    w = o.where("wheel_shape")
    if not rep.ob("wheels", f"shape{tag}", shape.op in ("tuple", "list", "arr") and len(shape.args) == 2, f"wheel shape is {show(shape)[:200]}", w):
        return
    hw, rad = shape.args
    four = kind in ("car", "truck")
    lf, lr, wh = g("lf"), g("lr"), g("w_half")
    assume = [lt(ZERO, lr), lt(hw, wh), lt(mul(TWO, rad), lf)]
    N = Norm(assume=assume)
    length, half = o.at("length"), add(mul(HALF, o.at("width")), hw)
    wb = add(lf, lr)
    rep.eq("body", f"width{tag}", N, o.at("width"), mul(TWO, wh), o.where("width"))
    rep.eq("body", f"wheelbase{tag}", N, o.at("wheelbase"), wb, o.where("wheelbase"))
    bumpers = o.at("bumpers_length")
    if not rep.ob("body", f"bumpers{tag}", bumpers.op in ("tuple", "list") and len(bumpers.args) == 2, f"bumpers are {show(bumpers)[:200]}", o.where("bumpers_length")):
        return
    bf, bb = bumpers.args
    front, back = add(lf, bf), neg(add(lr, bb))
    rep.eq("body", f"length{tag}", N, length, sub(front, back), o.where("length"))
    body(rep, o, assume, back, front, half, tag)
    # wheels
    wp = points_rows(o.at("wheels_position"))
    wo = points(o.at("wheel_outline"))
    n = 4 if four else 2
    rep.eq("wheels", f"number{tag}", N, o.at("n_wheels"), const(n), o.where("n_wheels"))
    w = o.where("wheels_position")
    if rep.ob("wheels", f"positions{tag}", wp is not None and len(wp) == n, f"{n} wheels but positions {show(o.at('wheels_position'))[:200]}", w):
        for i, (x, y) in enumerate(wp):
            rep.eq("wheels", f"axle of wheel {i}{tag}", N, x, lf if i < n // 2 else neg(lr), w)
        for k in (0, n // 2):
            ys = [y for _, y in wp[k:k + n // 2]]
            ok = all(N.diff(a, b) is None for a, b in zip(ys, [wh, neg(wh)])) or all(N.diff(a, b) is None for a, b in zip(ys, [neg(wh), wh])) if four else N.diff(ys[0], ZERO) is None
            rep.ob("wheels", f"ends of the axle{tag}", ok, f"wheels of an axle at {[show(y) for y in ys]}", w)
        d = var("delta")
        turned = o.at("get_rotated_wheels_outlines", d)
        w = o.where("get_rotated_wheels_outlines")
        rep.ob("wheels", f"outline{tag}", wo is not None and ring(N, wo, [(rad, hw), (neg(rad), hw), (neg(rad), neg(hw)), (rad, neg(hw))]), f"a wheel's outline is {show(o.at('wheel_outline'))[:200]}", o.where("wheel_outline"))
        if wo is not None and rep.ob("wheels", f"turned{tag}", turned.op in ("list", "tuple", "arr") and len(turned.args) == n, f"outlines of {n} wheels are {show(turned)[:200]}", w):
            for i, (t, (x, y)) in enumerate(zip(turned.args, wp)):
                p = points(t)
                c, s = (fn("cos", d), fn("sin", d)) if i < n // 2 else (ONE, ZERO)
                want = [(add(x, sub(mul(c, a), mul(s, b))), add(y, add(mul(s, a), mul(c, b)))) for a, b in wo]
                rep.ob("wheels", f"wheel {i}{tag}", p is not None and ring(N, p, open_(N, want)), f"{'front' if i < n // 2 else 'rear'} wheel {i} is drawn through {show(t)[:250]}", w)
                for a, b in want:
                    a, b = (subst(z, {fn("cos", d): ONE, fn("sin", d): ZERO}) for z in (a, b))
                    rep.holds("wheels", f"wheel {i} inside{tag}", N, land(le(back, a), le(a, front), le(neg(half), b), le(b, half)), w, what="a wheel sticks out of the body")
    lights = o.at("lights_position")
    w = o.where("lights_position")
    d = {k.args[0]: v for k, v in lights.args} if lights.op == "dict" and all(isinstance(a, tuple) and isconst(a[0]) for a in lights.args) else None
    if d is None and lights.op == "dict":
        d = {k.args[0]: v for k, v in zip(lights.args[::2], lights.args[1::2]) if isconst(k)}
    names = ("back_left", "back_right", "front_left", "front_right")
    if rep.ob("lights", f"corners{tag}", d is not None and set(d) == set(names), f"lights are {show(lights)[:300]}", w):
        for k in names:
            x, y = d[k].args[:2]
            rep.eq("lights", f"{k}{tag}, end", N, x, front if k.startswith("front") else back, w)
            y = y if k.endswith("left") else neg(y)
            rep.holds("lights", f"{k}{tag}, side", N, land(lt(ZERO, y), le(y, half)), w, what="a light is not on its side of the body")
        for e in ("back", "front"):
            rep.eq("lights", f"{e}, both sides{tag}", N, d[f"{e}_left"].args[1], neg(d[f"{e}_right"].args[1]), w)
    o.done()


def points_rows(t):
    if t.op == "arr" and len(t.args) in (2, 3) and all(r.op == "arr" for r in t.args):
        return list(zip(t.args[0].args, t.args[1].args))
    return None


def diffdrive(rep):
    o = Geo(rep, "DiffDriveGeometry")
    N = Norm()
    assume = [lt(ZERO, g("radius"))]
    body(rep, o, assume, neg(mul(HALF, o.at("length"))), mul(HALF, o.at("length")), mul(HALF, o.at("width")))
    for k in ("length", "width"):
        rep.eq("body", f"DiffDriveGeometry, {k}", N, o.at(k), mul(TWO, g("radius")), o.where(k))
    wp = points_rows(o.at("wheels_position"))
    w = o.where("wheels_position")
    h = mul(HALF, g("wheelbase"))
    if rep.ob("wheels", "DiffDriveGeometry", wp is not None and len(wp) == 2 and isconst(o.at("n_wheels"), 2), f"wheels at {show(o.at('wheels_position'))[:200]}", w):
        ok = all(N.diff(x, ZERO) is None for x, _ in wp) and any(N.diff(wp[0][1], s) is None and N.diff(wp[1][1], neg(s)) is None for s in (h, neg(h)))
        rep.ob("wheels", "DiffDriveGeometry, ends of the axle", ok, f"wheels at {show(o.at('wheels_position'))[:200]}", w)
        wo, outs = points(o.at("wheel_outline")), o.at("wheels_outlines")
        w = o.where("wheels_outlines")
        if rep.ob("wheels", "DiffDriveGeometry, outlines", wo is not None and outs.op in ("list", "tuple") and len(outs.args) == 2, f"outlines of the wheels are {show(outs)[:200]}", w):
            xs = [a for a, _ in wo]
            rep.ob("wheels", "DiffDriveGeometry, radius", all(any(N.diff(a, r) is None for r in (g("wheelradius"), neg(g("wheelradius")))) for a in xs) and any(N.diff(xs[0], a) is not None for a in xs), f"a wheel reaches {[show(a) for a in xs]}", o.where("wheel_outline"))
            for i, (t, (x, y)) in enumerate(zip(outs.args, wp)):
                p = points(t)
                rep.ob("wheels", f"DiffDriveGeometry, wheel {i}", p is not None and ring(N, p, open_(N, [(add(x, a), add(y, b)) for a, b in wo])), f"wheel {i} is drawn through {show(t)[:250]}", w)
    o.done()


def thrusters(rep, o):
    """the outlines of the spacecraft's thrusters mirror each other at the tail"""
    N = Norm()
    outs = o.at("thrusters_outline_in_body_frame")
    w = o.where("thrusters_outline_in_body_frame")
    ps = [points(t) for t in outs.args] if outs.op in ("list", "tuple", "arr") else []
    if rep.ob("thrusters", o.name, len(ps) == 2 and None not in ps and isconst(o.at("n_thrusters"), 2), f"outlines of two thrusters are {show(outs)[:200]}", w):
        rep.ob("thrusters", f"{o.name}, both sides", ring(N, ps[0], open_(N, [(x, neg(y)) for x, y in ps[1]])), f"the thrusters {show(outs)[:300]} do not mirror each other", w)
        for i, p in enumerate(ps):
            p = open_(N, p)
            cx = mul(T("div", ONE, const(len(p))), add(*[x for x, _ in p]))
            cy = mul(T("div", ONE, const(len(p))), add(*[y for _, y in p]))
            rep.eq("thrusters", f"{o.name}, {i}, at the tail", N, cx, neg(g("lr")), w)
            rep.ob("thrusters", f"{o.name}, {i}, at the side", N.diff(cy, g("w_half")) is None or N.diff(cy, neg(g("w_half"))) is None, f"thruster {i} is centred at {show(cy)}", w)
