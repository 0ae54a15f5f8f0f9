"""Symbolic construction of every controller, sampler and generator parameter set made from vehicle parameters, field by field."""
from ..absint import Interp, State
from ..norm import Norm
from ..terms import *
from ..types import Ty


def check(rep):
    ix = rep.ix
    rep.rule("speed", "speed controllers use the speed and acceleration limits")
    rep.rule("steer", "steering controllers use the steering angle and steering rate limits")
    rep.rule("sampler", "command samplers use the acceleration and steering rate limits")
    rep.rule("primitives", "motion primitives use the speed and steering angle limits")
    rep.rule("pursuit", "pure pursuit uses the vehicle's wheel base and rear length")
    rep.rule("agent", "the lane follower builds its controllers for its own vehicle")
    rep.rule("pure", "building parameters changes nothing else")
    N = Norm()
    p = var("vp")
    A = lambda k: T("attr", p, k)
    lims = lambda k: (T("item", A(k), ZERO), T("item", A(k), ONE))
    sym = lambda k: (T("neg", A(k)), A(k))

    class Made:
        def __init__(self, cls, factory, args, kind):
            self.ip, self.st = Interp(ix), State()
            vq = ix.cls(kind).qual
            self.ip.types[p] = Ty(vq)
            self.ip.exact.add(p)
            self.q = ix.cls(cls).qual
            f = ix.find_method(self.q, factory)
            names = [a.arg for a in f[1].args.args][1:]
            kw = tuple((n, args.get(n, p)) for n in names)
            self.where = f"{f[0].mod.path}:{f[1].lineno} {f[0].qual}.{factory}"
            self.o = self.ip.call(self.ip.getattr(T("cls", self.q), factory, self.st), (), kw, self.st, None)
            self.name = f"{cls}.{factory}"
            bad = [e for e in self.ip.effects if e.kind in ("store", "setitem", "mutate") and e.target.op != "ref"]
            rep.ob("pure", self.name, not bad, f"{bad[:1]!r}", bad[0].where() if bad else self.where)
            rep.funcs |= self.ip.visited
            rep.notes += self.ip.notes

        def made(self, rule, want, o=None):
            got = self.ip.clsof(o if o is not None else self.o)
            rep.ob(rule, f"{self.name}-type", got == ix.cls(want).qual, f"makes a {got}", self.where)

        def field(self, o, k):
            return self.ip.getattr(o, k, self.st)

        def pair(self, rule, what, o, want, at=""):
            for i, w in enumerate(want):
                rep.eq(rule, f"{self.name}-{what}-{i}", N, self.ip.freeze(self.ip.getitem(o, const(i), self.st), self.st), w, self.where)

        def val(self, rule, what, o, want):
            rep.eq(rule, f"{self.name}-{what}", N, self.ip.freeze(o, self.st), want, self.where)
    VP = "VehicleParameters"
    for rule, cls, sp, out in (("speed", "SpeedController", lims("vx_limits"), lims("acc_limits")), ("steer", "SteerController", sym("delta_max"), sym("ddelta_max"))):
        m = Made(cls + "Param", "from_vehicle_params", {}, VP)
        m.made(rule, cls + "Param")
        m.pair(rule, "set-point", m.field(m.o, "setpoint_minmax"), sp)
        m.pair(rule, "output", m.field(m.o, "output_minmax"), out)
        m = Made(cls, "from_vehicle_params", {}, VP)
        m.made(rule, cls)
        prm = m.field(m.o, "params")
        m.pair(rule, "set-point", m.field(prm, "setpoint_minmax"), sp)
        m.pair(rule, "output", m.field(prm, "output_minmax"), out)
    for rule, cls, fa, fb, na, nb, la, lb in (
            ("sampler", "CommandsSamplerParam", "acc", "steer_rate", "n_acc", "n_steer_rate", lims("acc_limits"), sym("ddelta_max")),
            ("primitives", "MPGParam", "velocity", "steering", "n_vel", "n_steer", lims("vx_limits"), sym("delta_max"))):
        args = {k: var(k) for k in ("dt", "n_steps", na, nb)}
        m = Made(cls, "from_vehicle_parameters", args, VP)
        m.made(rule, cls)
        m.pair(rule, fa, m.field(m.o, fa), (*la, var(na)))
        m.pair(rule, fb, m.field(m.o, fb), (*lb, var(nb)))
        for k in ("dt", "n_steps"):
            m.val(rule, k, m.field(m.o, k), var(k))
    wb = T("add", A("lf"), A("lr"))
    m = Made("PurePursuitParam", "from_vehicle_geo", {}, "VehicleGeometry")
    m.made("pursuit", "PurePursuitParam")
    m.val("pursuit", "length", m.field(m.o, "length"), wb)
    m.val("pursuit", "lr", m.field(m.o, "lr"), A("lr"))
    m = Made("PurePursuit", "from_model_geometry", {}, "VehicleGeometry")
    m.made("pursuit", "PurePursuit")
    prm = m.field(m.o, "param")
    m.val("pursuit", "length", m.field(prm, "length"), wb)
    m.val("pursuit", "lr", m.field(prm, "lr"), A("lr"))
    # the lane following agent
    q = ix.cls("LFAgent").qual
    f = ix.find_method(q, "__init__")
    names = [a.arg for a in f[1].args.args][1:]
    w = f"{f[0].mod.path}:{f[1].lineno} {q}.__init__"
    ip, st = Interp(ix), State()
    kw, g, mp = {}, var("g"), var("mp")
    for a in f[1].args.args[1:]:
        ty = ip.ty.ann(f[0].mod, a.annotation)
        if ty is not None and ty.name == ix.cls("VehicleGeometry").qual:
            kw[a.arg] = g
            ip.types[g] = ty
        elif ty is not None and ty.name in (ix.cls("VehicleParameters").qual, ix.cls("ModelParameters").qual):
            kw[a.arg] = mp
            ip.types[mp] = Ty(ix.cls("VehicleParameters").qual)
        elif a.arg == "pure_pursuit":
            kw[a.arg] = NONE
        else:
            kw[a.arg] = var(a.arg)
    ip.exact |= {g, mp}
    o = ip.instantiate(q, (), tuple(kw.items()), st, None)
    S = Norm(assume=[lnot(T("cmp", "is", NONE, x)) for x in (g, mp)])

    def field(o, *ks):
        for k in ks:
            o = ip.getattr(o, k, st) if isinstance(k, str) else ip.getitem(o, const(k), st)
        return ip.freeze(o, st)
    ml = lambda k, i: T("item", T("attr", mp, k), const(i))
    for k, want in (("speed_controller", {"setpoint_minmax": "vx_limits", "output_minmax": "acc_limits"}), ("steer_controller", {"setpoint_minmax": "delta_max", "output_minmax": "ddelta_max"})):
        for r, lim in want.items():
            for i in (0, 1):
                x = ml(lim, i) if lim.endswith("limits") else (T("attr", mp, lim) if i else T("neg", T("attr", mp, lim)))
                rep.eq("agent", f"LFAgent-{k}-{r}-{i}", S, field(o, k, "params", r, i), x, w)
    rep.eq("agent", "LFAgent-pure_pursuit-length", S, field(o, "pure_pursuit", "param", "length"), T("add", T("attr", g, "lf"), T("attr", g, "lr")), w)
    rep.eq("agent", "LFAgent-pure_pursuit-lr", S, field(o, "pure_pursuit", "param", "lr"), T("attr", g, "lr"), w)
    rep.funcs |= ip.visited
