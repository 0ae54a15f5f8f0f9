"""The simulator's run split into set-up, one arbitrary iteration and wind-up."""
import ast
from .absint import Interp, State
from .terms import *
from .types import Ty

OPAQUE = {"DgSampledSequenceBuilder.add", "DgSampledSequenceBuilder.as_sequence", "SimModel.get_state", "resolve_collision",
          "resolve_collision_with_environment", "CollisionReport.get_empty", "DgScenario.__deepcopy__"}


class SegInterp(Interp):
    """Interp whose first top-level `while` is analysed as one iteration from an arbitrary state."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.seg = None

    def havoc(self, st, body):
        assigned = {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        s2 = st.fork()
        cur = self.cur().fid
        for k in list(s2.frames.get(cur, {})):
            if k in assigned:
                old = s2.frames[cur][k]
                v = var("?" + k)
                ty = self.typeof(old) if isinstance(old, T) else None
                if ty is not None:
                    self.types[v] = ty
                s2.frames[cur][k] = v
        s2.heap = {k: v for k, v in s2.heap.items() if k[0].op == "ref"}
        s2.pc = TRUE
        return s2

    def s_While(self, s, st, out):
        if self.loops or self.seg is not None:
            return super().s_While(s, st, out)
        self.seg = {"init": len(self.effects), "pc": st.pc, "stinit": st.fork()}
        s2 = self.havoc(st, s.body)
        c = self.cond(s.test, s2)
        self.seg["cond"] = c
        s2.pc = land(s2.pc, c)
        o2 = []
        alive = self.exec_block(s.body, s2, o2)
        self.seg["iter"] = len(self.effects)
        self.seg["exits"] = [o for o in o2 if o.kind in ("break", "return")]
        self.seg["end"] = s2.fork() if alive else None
        self.seg["stiter"] = s2
        s3 = self.havoc(st, s.body)
        st.become(s3)
        st.heap = {}
        return True


class SimRun:
    def __init__(self, ix, opaque=(), overrides=None):
        self.ix = ix
        self.ip = SegInterp(ix, opaque=(OPAQUE | set(opaque)) - set(overrides or ()), overrides=overrides)
        self.cls = ix.cls("Simulator")
        self.fi = ix.method("Simulator", "run")
        self.res = self.ip.run(self.fi)
        if self.ip.seg is None:
            from .rule import Inconclusive
            raise Inconclusive("no simulation loop found below Simulator.run")
        sg = self.ip.seg
        self.init = self.res.effects[: sg["init"]]
        self.iter = self.res.effects[sg["init"]: sg["iter"]]
        self.final = self.res.effects[sg["iter"]:]
        self.cond = sg["cond"]
        self.exits = sg["exits"]
        self.ctx = var("sim_context")
        self.self = var("self")
        # the configured quantities
        c = lambda n: T("attr", self.ctx, n)
        self.time, self.players, self.models, self.missions = c("time"), c("players"), c("models"), c("missions")
        self.dt = T("attr", c("param"), "dt")
        self.dtc = T("attr", c("param"), "dt_commands")


def clean(t):
    """forget heap versions: which object/attribute a value is read from, not when"""
    def f(x):
        if x.op == "versioned":
            return x.args[0]
        if x.op in ("attr", "item") and len(x.args) > 2:
            return T(x.op, x.args[0], x.args[1])
        if x.op == "mcall" and len(x.args) > 4:
            return T("mcall", *x.args[:4])
        if x.op == "fn" and x.args[0] in ("iter", "keys") and len(x.args) == 2:
            return x.args[1]
        return x
    return rebuild(t, f) if isinstance(t, (T, tuple)) else t


def has_ver(t):
    """the value is read after something it depends on has been modified"""
    return contains(t, lambda x: x.op == "versioned" or (x.op in ("attr", "item") and len(x.args) > 2 and x.args[2] is not None)
                    or (x.op == "mcall" and len(x.args) > 4 and x.args[4] is not None))


def elem_of(t, it):
    return isinstance(t, T) and t.op == "elem" and t.args[0] is it


def bindargs(fi, args, kwargs):
    """parameter name -> value for a call of fi (self not included)"""
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    from .types import decos
    if fi.cls is not None and "staticmethod" not in decos(fi.node):
        names = names[1:]
    out = dict(zip(names, args))
    out.update(dict(kwargs))
    return out


def loop_ids(e):
    return [l[3] for l in e.loops if len(l) > 3]


def cut_short(ip, e):
    """loops around e that can end before the last element (raising aborts the run and does not count)"""
    return [lid for lid in loop_ids(e) if any(k != "raise" for k, _ in ip.early.get(lid, ()))]


def guard_of(e, drop=()):
    return e.guard


def leaves(norm, t, when=TRUE):
    """the possible values of a gated term in the cases where `when` holds: {canonical term: case log}"""
    out = {}

    def f(cx):
        if not norm.truth(when, cx):
            return None
        return pick(norm, t, cx)
    for cx, v in norm.each(f):
        if v is not None and v not in out:
            out[v] = cx.log
    return out


def pick(norm, t, cx):
    """resolve only the outermost gates of t"""
    while isinstance(t, T) and t.op == "ite":
        t = t.args[1] if norm.truth(t.args[0], cx) else t.args[2]
    return t


def rec_field(t, name):
    if t.op == "rec":
        for k, v in t.args[1]:
            if k == name:
                return v
    return None


def short(t):
    return show(clean(t), 0, 8)[:200]


def setnorm(t):
    """truth of containers: emptiness tests, disjointness and membership quantifiers in one form"""
    def f(x):
        o, a = x.op, x.args
        ln = lambda y: y.op == "fn" and y.args[0] == "len"
        if o == "cmp" and a[0] == "eq":
            for p, q in ((a[1], a[2]), (a[2], a[1])):
                if ln(p) and isconst(q, 0):
                    return lnot(truthy(p.args[1]))
        if o == "cmp" and a[0] == "lt":
            if isconst(a[1], 0) and ln(a[2]):
                return truthy(a[2].args[1])
            if isconst(a[2], 1) and ln(a[1]):
                return lnot(truthy(a[1].args[1]))
        if o == "fn" and a[0] == "bool":
            return truthy(a[1])
        if ln(x):
            return x
        return x

    return rebuild(t, f)


def truthy(c):
    if c.op == "fn" and c.args[0] in ("len", "bool", "list", "tuple", "set", "keys"):
        return truthy(c.args[1])
    if c.op == "comp" and c.args[0] in ("list", "set", "dict"):
        if c.args[3] is TRUE:
            return truthy(c.args[2])
        return T("any", c.args[2], c.args[1], c.args[3])
    return c


def active(S, it, cond, p):
    """`for p in it if cond` enumerates exactly the active players (as of the start of the step)"""
    if clean(it) is S.players and not has_ver(it) and cond is TRUE:
        return True
    return clean(it) is S.models and clean(cond) is T("cmp", "in", p, S.players) and not has_ver(cond)


def attr_writes(ix, names):
    """every place in the package assigning, augmenting or deleting an attribute with one of these names"""
    out = []
    for q, f in ix.funcs.items():
        for n in ast.walk(f.node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            elif isinstance(n, (ast.For, ast.comprehension)):
                tg = [n.target]
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                tg = [n.optional_vars]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and len(n.args) > 1:
                if isinstance(n.args[1], ast.Constant) and n.args[1].value in names:
                    out.append((f, n, n.args[0], n.args[1].value))
            todo = list(tg)
            while todo:
                t = todo.pop()
                if isinstance(t, (ast.Tuple, ast.List)):
                    todo.extend(t.elts)
                elif isinstance(t, ast.Starred):
                    todo.append(t.value)
                elif isinstance(t, ast.Attribute) and t.attr in names:
                    out.append((f, n, t.value, t.attr))
    return out


def query_condition(rep, S, N):
    """(Q, name of the attribute holding the time of the last query): commands are due exactly when Q"""
    got = [e for e in S.iter if e.kind == "call" and e.name == "get_commands"]
    rep.count("command query sites", len(got), 1)
    cands = [e for e in S.iter if e.kind == "store" and e.ftarget is S.self]
    for e in cands:
        y = T("attr", S.self, e.name)
        q = lnot(T("cmp", "lt", T("sub", S.time, y), S.dtc))
        if all(N.equiv(g.guard, q) is None for g in got):
            return q, e.name, got
    return None, None, got
