"""Runs of the collision resolvers with arbitrary bodies and an arbitrary contact (normal, point)."""
from .absint import Interp, State
from .terms import *
from .types import Ty


def kwargs_of(names, args, kwargs):
    d = dict(zip(names, args))
    d.update(dict(kwargs))
    return d


def turn(v, th, sgn=1):
    c, s = T("fn", "cos", th), T("fn", "sin", th)
    s = s if sgn > 0 else T("neg", s)
    return [T("sub", T("mul", c, v[0]), T("mul", s, v[1])), T("add", T("mul", s, v[0]), T("mul", c, v[1]))]


class Coll:
    """One run of `fname`; `contact=False` leaves the impact geometry computation in place."""

    def __init__(self, ix, fname, scenario=True):
        self.ix, self.fname = ix, fname
        self.fi = ix.func(fname)
        self.velreads = []
        base = ix.cls("SimModel").qual
        self.base = base
        self.n = T("arr", T("fn", "cos", var("contact_angle")), T("fn", "sin", var("contact_angle")))
        self.p = T("tuple", var("px"), var("py"))
        self.contact_args = []
        ov = {"compute_impact_geometry": self.contact, "SimModel.get_velocity": self.get_velocity, "SimModel.get_pose": self.get_pose}
        self.ip = Interp(ix, overrides=ov, opaque=("DgLanelet.lane_pose_from_SE2_generic", "DgLanelet.from_commonroad_lanelet"))
        self.st = State()
        ip = self.ip

    def contact(self, ip, st, args, kwargs, node):
        d = kwargs_of(["a", "b"], args, kwargs)
        self.contact_args.append((ip.freeze(d["a"], st), ip.freeze(d["b"], st)))
        pt = var("P")
        st.heap[(pt, "coords")] = T("tuple", self.p)
        st.heap[(pt, "x")], st.heap[(pt, "y")] = self.p.args
        ip.types.setdefault(pt, Ty("shapely.geometry.Point"))
        ip.effect("call", st, node, name="compute_impact_geometry", args=args, kwargs=kwargs, value=self.n)
        return T("tuple", self.n, pt)

    def nset(self, ip, r):
        return sum(1 for e in ip.effects if e.kind == "call" and e.name == "set_velocity" and e.target is r)

    def velvars(self, r, k=0):
        """global velocity and spin of body r after k impositions"""
        return [T("attr", r, c + (f"#{k}" if k else "")) for c in ("vx_global", "vy_global", "omega")]

    def get_velocity(self, ip, st, args, kwargs, node):
        r = ip.freeze(args[0], st)
        d = kwargs_of(["in_model_frame"], args[1:], kwargs)
        fr = ip.freeze(d.get("in_model_frame", NONE), st)
        k = self.nset(ip, r)
        self.velreads.append((r, fr, k))
        v = self.velvars(r, k)
        if fr is TRUE:
            return T("tuple", T("arr", *turn(v[:2], self.posevars(r)[2], -1)), v[2])
        if fr is not FALSE:
            return T("tuple", T("arr", *(T("attr", r, f"v{c}_in_frame({show(fr)[:40]})") for c in "xy")), v[2])
        return T("tuple", T("arr", v[0], v[1]), v[2])

    def posevars(self, r):
        return [T("attr", r, c + "_pose") for c in ("x", "y", "th")]

    def get_pose(self, ip, st, args, kwargs, node):
        return T("fn", "SE2", *self.posevars(ip.freeze(args[0], st)))

    def run(self):
        self.res = self.ip.run(self.fi, st=self.st)
        self.sets = [e for e in self.res.effects if e.kind == "call" and e.name == "set_velocity"]
        return self.res

    def imposed(self, e):
        """global velocity and spin imposed by a set_velocity call"""
        ip = self.ip
        kw = dict(e.kwargs)
        for n, a in zip(("vel", "omega", "in_model_frame"), e.fargs):
            kw[n] = a
        kw = {k: ip.freeze(v, self.res.state) for k, v in kw.items()}
        st = self.res.state
        v = [ip.freeze(ip.getitem(kw["vel"], const(i), st), st) for i in (0, 1)]
        if kw["in_model_frame"] is TRUE:
            v = turn(v, self.posevars(e.target)[2])
        elif kw["in_model_frame"] is not FALSE:
            v = [T("fn", "unknown_frame", x) for x in v]
        return v + [kw["omega"]]

    def body(self, r, geom=None):
        """(position, velocity, spin, mass, inertia, restitution) before the impact"""
        g = geom if geom is not None else T("attr", r, "model_geometry")
        v = self.velvars(r)
        return dict(pos=self.posevars(r)[:2], v=v[:2], w=v[2], m=T("attr", g, "m"), Iz=T("attr", g, "Iz"), e=T("attr", g, "e"))


def cross(a, b):
    return T("sub", T("mul", a[0], b[1]), T("mul", a[1], b[0]))


def dot(a, b):
    return T("add", T("mul", a[0], b[0]), T("mul", a[1], b[1]))


def vsub(a, b):
    return [T("sub", x, y) for x, y in zip(a, b)]


def at_point(v, w, r):
    """velocity of the material point at r from the centre of mass"""
    return [T("sub", v[0], T("mul", w, r[1])), T("add", v[1], T("mul", w, r[0]))]
