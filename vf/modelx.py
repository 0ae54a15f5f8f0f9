"""Simulation models with a symbolic state, geometry and parameters, and runs of their methods."""
import ast
from .absint import Interp, State
from .terms import *
from .types import Ty, decos

MODELS = ("DynObstacleModel", "PedestrianModel", "DiffDriveModel", "VehicleModel", "VehicleModelDyn", "SpacecraftModel", "SpaceshipModel", "RocketModel")


def concrete_models(ix):
    """every class of the package that is a simulation model and can be instantiated"""
    base = ix.cls("SimModel").qual
    out = []
    for q in ix.subclasses(base):
        if q == base:
            continue
        out.append(q)
    return sorted(out)


def entrywise(t):
    """a choice between arrays of the same length as an array of choices"""
    if t.op == "ite":
        a, b = entrywise(t.args[1]), entrywise(t.args[2])
        if a.op in ("arr", "list", "tuple") and b.op in ("arr", "list", "tuple") and len(a.args) == len(b.args):
            return T("arr", *[ite(t.args[0], x, y) for x, y in zip(a.args, b.args)])
    return t


class MX:
    def __init__(self, ix, q, overrides=None, opaque=()):
        self.ix, self.q = ix, q
        self.name = q.split(".")[-1]
        self.ip = Interp(ix, overrides=overrides, opaque=opaque)
        self.st = State()
        init = ix.find_method(q, "__init__")
        kwargs = []
        a = init[1].args
        owner = init[0]
        self.params = {}
        for x in (a.posonlyargs + a.args + a.kwonlyargs)[1:]:
            ty = self.ip.ty.ann(owner.mod, x.annotation)
            v = var(x.arg)
            if ty is not None:
                self.ip.types[v] = ty
                self.ip.exact.add(v)
            kwargs.append((x.arg, v))
            self.params[x.arg] = v
        self.ref = self.ip.instantiate(q, (), tuple(kwargs), self.st, None)
        self.state_t = self.hget("_state")
        ty = self.ip.typeof(self.state_t)
        self.state_cls = ty.name if ty is not None else None
        self.st.heap[(self.ref, "has_collided")] = var("has_collided")

    def hget(self, name, st=None):
        return self.ip.hget(st or self.st, self.ref, name)

    def fields(self):
        return [f[0] for f in self.ix.dc_fields(self.state_cls) if not is_class_attr(self.ix, self.state_cls, f[0])]

    def x(self, name):
        return T("attr", self.state_t, name)

    def run(self, meth, *args, st=None, **kw):
        """(value, state after, effects, raises) of a method call from the initial symbolic state"""
        st = (st or self.st).fork()
        self.ip.raises = []
        n = len(self.ip.effects)
        m = self.ix.find_method(self.q, meth)
        if m is None:
            raise KeyError(f"{self.q} has no {meth}")
        v = self.ip.call(T("bound", self.ref, m[0].qual + "." + meth), args, tuple(sorted(kw.items())), st, None)
        return v, st, self.ip.effects[n:], list(self.ip.raises)

    def later(self, *gets, step=()):
        """readings of a model that was read before and then given another state: what the same readings gave before, for the new state, and what they give now.
        gets: (method, arguments); returns [(method, before, now, state)]"""
        st = self.st.fork()
        first = []
        for meth, args in gets:
            v, st, _, _ = self.run(meth, *args, st=st)
            first.append(self.ip.freeze(v, st))
        if step:
            # the state reached by a step of the model (built with an IVP stand-in)
            _, st, _, _ = self.run("update", *step, st=st)
            new = self.ip.hget(st, self.ref, "_state")
            names = {self.x(f): self.ip.freeze(self.ip.getattr(new, f, st), st) for f in self.fields()}
            return self.again(gets, first, names, st)
        new = var("x1")
        self.ip.types[new] = self.ip.typeof(self.state_t)
        self.ip.exact.add(new)
        if self.ix.find_method(self.q, "set_state"):
            _, st, _, _ = self.run("set_state", new, st=st)
        else:
            st.heap[(self.ref, "_state")] = new
        return self.again(gets, first, {self.x(f): T("attr", new, f) for f in self.fields()}, st)

    def again(self, gets, first, names, st):
        out = []
        for (meth, args), a in zip(gets, first):
            v, st, _, _ = self.run(meth, *args, st=st)
            out.append((meth, subst(a, names), self.ip.freeze(v, st), st))
        return out

    def field_after(self, st, name):
        """value of a state component after a run that left the model in st"""
        s = self.ip.hget(st, self.ref, "_state")
        return self.ip.freeze(self.ip.getattr(s, name, st), st)

    def prop(self, name, st=None):
        st = (st or self.st).fork()
        return self.ip.freeze(self.ip.getattr(self.ref, name, st), st)


def up_to_date(now, want, stale, depth=8):
    """whether now is want in every case, where `stale` is the state of an earlier reading: remembered values may be used when what they depend on is the same"""
    if now is want:
        return True
    if now is None or depth == 0:
        return False
    cs = {a for t in subterms(now) if t.op == "ite" for a in subterms(t.args[0]) if a.op == "cmp" and contains(a, lambda x: x is stale)}
    cs = cs or {t.args[0] for t in subterms(now) if t.op == "ite"}
    if not cs:
        return False
    # the innermost condition first
    c = min(cs, key=lambda c: (sum(1 for _ in subterms(c)), c.uid))
    same = {}
    for e in conjuncts(c):
        if e.op == "cmp" and e.args[0] == "eq":
            ps = list(zip(e.args[1].args, e.args[2].args)) if e.args[1].op == e.args[2].op and e.args[1].op in ("tuple", "list", "arr") and len(e.args[1].args) == len(e.args[2].args) else [e.args[1:]]
            for a, b in ps:
                a, b = (b, a) if contains(b, lambda t: t is stale) else (a, b)
                if a is stale:
                    same.update({t: T("attr", b, t.args[1]) for t in subterms(now) if t.op == "attr" and t.args[0] is stale})
                elif a.op == "rec":
                    same.update({v: T("attr", b, k) for k, v in a.args[1] if contains(v, lambda t: t is stale)})
                elif contains(a, lambda t: t is stale):
                    same[a] = b
    return up_to_date(subst(subst(now, {c: TRUE}), same), want, stale, depth - 1) and up_to_date(subst(now, {c: FALSE}), want, stale, depth - 1)


def is_class_attr(ix, q, name):
    return name == "idx"


def pair(ip, v, st):
    """components of a 2-tuple value"""
    return [ip.freeze(ip.getitem(v, const(i), st), st) for i in (0, 1)]


def vec(ip, v, st, n=2):
    return [ip.freeze(ip.getitem(v, const(i), st), st) for i in range(n)]


def command_var(m, meth="dynamics", pos=2):
    mi = m.ix.find_method(m.q, meth)
    u = var("u")
    ty = m.ip.ty.ann(mi[0].mod, mi[1].args.args[pos].annotation)
    if (ty is None or ty.name not in m.ix.classes) and meth != "dynamics":
        return command_var(m)
    if ty is not None:
        m.ip.types[u] = ty
        m.ip.exact.add(u)
    return u


def dynamics(m, x=None):
    """(u, {component: rate}, raises): the state derivative for the model's own state and an arbitrary command"""
    u = command_var(m)
    d, st, ef, ra = m.run("dynamics", x if x is not None else m.state_t, u)
    return u, {k: m.ip.freeze(m.ip.getattr(d, k, st), st) for k in m.fields()}, ra


def stale(m):
    """components of the derivative at an arbitrary state that depend on the model's own current state (friction after a collision aside)"""
    x = var("x_any")
    m.ip.types[x] = Ty(m.state_cls)
    m.ip.exact.add(x)
    _, d, _ = dynamics(m, x)
    hc = var("has_collided")
    out = []
    for k, v in d.items():
        for b in ((FALSE,) if k in ("vx", "vy", "dpsi") else (FALSE, TRUE)):
            out += [(k, t) for t in subterms(subst(v, {hc: b})) if t.op == "attr" and t.args[0] is m.state_t]
    return out


def velocity(m, body, st=None):
    """[vx, vy, omega] as reported"""
    v, st2, ef, ra = m.run("get_velocity", TRUE if body else FALSE, st=st)
    p = pair(m.ip, v, st2)
    return vec(m.ip, m.ip.getitem(v, const(0), st2), st2) + [p[1]], ra


def where(ix, q, meth):
    m = ix.find_method(q, meth)
    return f"{m[0].mod.path}:{m[1].lineno} {m[0].qual}.{meth}" if m else q


class IVP:
    """Stand-in for scipy's integrator: evaluates the right-hand side at an arbitrary point and returns an arbitrary result."""

    def __init__(self):
        self.calls = []

    def __call__(self, ip, st, args, kwargs, node):
        kw = dict(kwargs)
        names = ["fun", "t_span", "y0", "method", "t_eval", "dense_output", "events", "vectorized", "args"]
        for n, a in zip(names, args):
            kw[n] = a
        y0 = ip.freeze(kw["y0"], st)
        c = {"kw": kw, "y0": y0, "t_span": ip.freeze(kw["t_span"], st), "st": st.fork(), "pc": st.pc, "extra": {k: ip.freeze(v, st) for k, v in kw.items() if k not in ("fun", "t_span", "y0")}}
        n = len(y0.args) if y0.op in ("arr", "list", "tuple") else None
        c["n"] = n
        if n:
            k = len(self.calls)
            ys = tuple(var(f"y{i}" if not k else f"y{k}_{i}") for i in range(n))
            s2 = st.fork()
            f = ip.call(kw["fun"], (var("t"), T("arr", *ys)), (), s2, node)
            c["ys"], c["rhs"] = ys, entrywise(ip.freeze(f, s2))
            zs = tuple(var(f"z{i}" if not k else f"z{k}_{i}") for i in range(n))
            c["zs"] = zs
            r = ip.new_ref("#ivp")
            c["success"] = var("ivp_ok" if not k else f"ivp_ok{k}")
            st.heap[(r, "success")] = c["success"]
            # the columns: the initial value, a value on the way, the final value
            ms = tuple(var(f"w{i}" if not k else f"w{k}_{i}") for i in range(n))
            st.heap[(r, "y")] = T("arr", *(T("arr", a, b, z) for a, b, z in zip(y0.args, ms, zs)))
            st.heap[(r, "t")] = T("arr", *(var(f"{x}" if not k else f"{x}_{k}") for x in ("ivp_t0", "ivp_t1", "ivp_t2")))
            self.calls.append(c)
            return r
        self.calls.append(c)
        return T("var", "ivp_result")
