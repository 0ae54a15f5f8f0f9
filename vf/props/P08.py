"""Ownership and escape analysis of simulation state: copies are made per use, and only a model touches its own state."""
import ast
from ..scan import Scan
from ..effects import Effects, IMM
from ..modelx import concrete_models
from ..absint import Interp
from ..simx import *


def check(rep):
    rep.rule("copies", "a model hands out its state only as an independent copy")
    rep.rule("escape", "states given to agents, states logged, and scenario and goal at episode start are copies made for that one use")
    rep.rule("owner", "a model's state object is only touched by that model's own methods")
    rep.rule("commands", "stepping a model does not modify the commands")
    sc = Scan(rep.ix)
    E = Effects(sc)
    rep.funcs |= {u.qual for u in sc.units}
    copies(rep, sc, E)
    escape(rep)
    owner(rep, sc)
    commands(rep, sc, E)


def scalar_fields(ix, q):
    for n, o, d, a in ix.dc_fields(q):
        t = a if not isinstance(a, ast.AST) else None
        s = ast.unparse(a) if isinstance(a, ast.AST) else str(a)
        if s.replace("Optional[", "").rstrip("]").split(".")[-1] not in IMM | {"LightsCmd", "PlayerName"}:
            return False
    return True


def copies(rep, sc, E):
    base = rep.ix.cls("SimModel").qual
    n = 0
    for q in sorted({base, *concrete_models(rep.ix)}):
        k = rep.ix.find_method(q, "get_state")
        if not rep.ob("copies", f"{q}.get_state", k is not None, f"{q} has no get_state"):
            continue
        f = k[0].qual + ".get_state"
        top, deep = E.ret.get(f, (frozenset(), frozenset()))
        flat = all(scalar_fields(rep.ix, c) for c in states(rep.ix))
        rep.ob("copies", f"{q}.get_state", not top and (flat or not deep), f"{f} returns the live state", sc.byqual[f].where(k[1]))
        n += 1
    rep.count("models", n, 9)
    # copying must copy
    for q, ci in rep.ix.classes.items():
        for m in ("__deepcopy__", "__copy__", "__reduce__", "__reduce_ex__", "__getstate__", "__new__"):
            if m in ci.methods:
                r = E.ret.get(f"{q}.{m}", (frozenset(), frozenset()))
                kept = [t for t in r[0] | r[1] if t[1] in ("self",)]
                rep.ob("copies", f"{q}.{m}", not kept, f"{q}.{m} shares the original's data with the copy", sc.byqual[f"{q}.{m}"].where(ci.methods[m]))
    # no other method hands out the state object
    for q in concrete_models(rep.ix):
        for c in rep.ix.mro(q):
            for nm, fn in rep.ix.classes[c].methods.items():
                for r in ast.walk(fn):
                    if isinstance(r, (ast.Return, ast.Yield)) and r.value is not None and any(live(x) for x in tops(r.value)):
                        rep.ob("copies", f"{c}.{nm}", False, f"{c}.{nm} hands out the live state", f"{rep.ix.classes[c].mod.path}:{r.lineno}")


def states(ix):
    out = []
    for q in concrete_models(ix):
        ci = ix.find_method(q, "__init__")
        for a in ci[1].args.args:
            if a.annotation is not None and ast.unparse(a.annotation).endswith(("State", "StateDyn")):
                r = ix.lookup(ci[0].mod.name, ast.unparse(a.annotation))
                if r and r[0] == "class":
                    out.append(r[1])
    b = [c for c in ix.classes if c.split(".")[-1] in ("VehicleState", "VehicleStateDyn")]
    return sorted(set(out + b))


def live(e):
    return isinstance(e, ast.Attribute) and e.attr == "_state" and isinstance(e.value, ast.Name) and e.value.id == "self"


def tops(e):
    """the objects an expression may evaluate to or directly contain"""
    yield e
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        for x in e.elts:
            yield from tops(x)
    elif isinstance(e, ast.Dict):
        for x in e.values:
            yield from tops(x)
    elif isinstance(e, ast.IfExp):
        yield from tops(e.body)
        yield from tops(e.orelse)
    elif isinstance(e, ast.BoolOp):
        for x in e.values:
            yield from tops(x)
    elif isinstance(e, ast.NamedExpr):
        yield from tops(e.value)


class Copy:
    def __init__(self):
        self.n = 0

    def make(self, what):
        def f(ip, st, args, kwargs, node):
            self.n += 1
            src = args[0] if args else NONE
            if src is NONE:
                return NONE
            t = T("fn", "fresh", const(self.n), const(what), T("mcall", src, "get_state", (), ()) if what == "state" else src, const(len(ip.loops)))
            ty = ip.typeof(src) if what == "copy" else None
            if ty is not None:
                ip.types[t] = ty
            return t
        return f


def escape(rep):
    C = Copy()
    S = SimRun(rep.ix, overrides={"SimModel.get_state": C.make("state"), "copy.deepcopy": C.make("copy")})
    rep.saw(S.res)

    def ids(t):
        out = {}
        walkids(t, out)
        return out
    given, logged = {}, {}
    # the snapshot
    k = 0
    for e in S.iter + S.init:
        if e.kind == "store" and e.ftarget is not None and clean(e.ftarget) is S.self:
            vals = [x for x in recs(e.fvalue, "PlayerObservations")]
            for r in vals:
                s = rec_field(r, "state")
                k += 1
                rep.ob("escape", f"observation in {e.name}", all(isfresh(x) for x in alts(s)), f"the state observed by agents is {short(s)}, not a copy", e.where())
                for x in alts(s):
                    if isfresh(x):
                        given[x.args[1]] = (x, e)
    for e in S.iter:
        if e.kind == "call" and e.name in ("sense", "get_commands"):
            for a in [*e.fargs, *(v for _, v in e.kwargs)]:
                for r in recs(a, "PlayerObservations"):
                    s = rec_field(r, "state")
                    k += 1
                    rep.ob("escape", f"observation given to {e.name}", all(isfresh(x) for x in alts(s)), f"the state observed by agents is {short(s)}, not a copy", e.where())
                    for x in alts(s):
                        if isfresh(x):
                            given[x.args[1]] = (x, e)
    rep.count("observed states", k, 1)
    # the log
    n = 0
    for e in S.iter + S.final + S.init:
        if e.kind == "call" and e.name in ("add", "append", "DgSampledSequenceBuilder.add") and e.ftarget is not None and names(e.ftarget, "states"):
            v = dict(e.kwargs).get("v", e.fargs[-1] if e.fargs else None)
            n += 1
            rep.ob("escape", "logged state", all(isfresh(x) for x in alts(v)), f"the state logged is {short(v)}, not a copy", e.where())
            for x in alts(v):
                if isfresh(x):
                    logged.setdefault(x.args[1], []).append((x, e))
    rep.count("logged states", n, 2)
    for i in sorted(set(given) & set(logged), key=repr):
        rep.ob("escape", "log and observation", False, "one and the same state object is logged and given to agents", logged[i][0][1].where())
    # episode start
    m = 0
    for e in S.init:
        if e.kind == "call" and e.name == "on_episode_init":
            m += 1
            for r in recs(tuple(e.fargs), "InitSimObservations"):
                for f, src in (("dg_scenario", T("attr", S.ctx, "dg_scenario")), ("goal", None)):
                    v = rec_field(r, f)
                    for x in alts(v):
                        if x is NONE:
                            continue
                        own = isfresh(x) and x.args[4].args[0] >= len(e.loops) and len(e.loops) > 0
                        rep.ob("escape", f"{f} at episode start", isfresh(x), f"the {f} given to an agent is {short(x)}, not a copy", e.where())
                        rep.ob("escape", f"{f} of one agent", own, f"several agents get the same copy of the {f}", e.where())
    rep.count("episode starts", m, 1)


def names(t, a):
    return contains(clean(t), lambda x: x.op == "attr" and x.args[1] == a)


def isfresh(x):
    return x.op == "fn" and x.args[0] == "fresh"


def alts(t):
    if t is None:
        return [NONE]
    if t.op == "ite":
        return alts(t.args[1]) + alts(t.args[2])
    return [t]


def recs(t, cls):
    seen, out = set(), []

    def go(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T):
            if x.op == "rec" and x.args[0].split(".")[-1] == cls:
                out.append(x)
            for y in x.args:
                go(y)
    go(t)
    return out


def walkids(t, out):
    for x in subterms(t):
        if isfresh(x):
            out[x.args[1]] = x


def owner(rep, sc):
    base = rep.ix.cls("SimModel").qual
    models = {base, *rep.ix.subclasses(base)}
    n = 0
    for u in sc.units:
        for x in u.walk():
            if isinstance(x, ast.Attribute) and x.attr == "_state":
                own = u.cls is not None and u.cls.qual in models and isinstance(x.value, ast.Name) and x.value.id == "self"
                t = sc.type(u, x.value)
                if not own and t is not None and t.name in sc.ix.classes and t.name not in models:
                    continue
                n += 1
                rep.ob("owner", f"{u.qual}", own, f"{u.qual} reaches into the state of a model: {ast.unparse(x)}", u.where(x))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "set_state":
                t = sc.type(u, x.func.value)
                if t is not None and t.name in models:
                    rep.ob("owner", f"{u.qual}: set_state", False, f"{u.qual} replaces the state of a model", u.where(x))
            elif isinstance(x, ast.Constant) and x.value == "_state":
                rep.ob("owner", f"{u.qual}: '_state'", False, f"{u.qual} reaches into the state of a model by name", u.where(x))
    rep.count("uses of model state", n, 20)


def commands(rep, sc, E):
    n = 0
    base = rep.ix.cls("SimModel").qual
    for q in [base, *rep.ix.subclasses(base)]:
        ci = rep.ix.classes[q]
        fn = ci.methods.get("update")
        if fn is None:
            continue
        f = q + ".update"
        ps = [a.arg for a in fn.args.args if a.arg != "self"]
        n += 1
        bad = [(t, xs[0]) for t, xs in E.mut.get(f, {}).items() if t[0] == "p" and t[1] in ps]
        rep.ob("commands", f, not bad, f"{f} modifies its {bad[0][0][1] if bad else ''}: {bad[0][1][1] if bad else ''}", sc.byqual[f].where(bad[0][1][0] if bad else fn))
    rep.count("update methods", n, 2)
    for f, u in sc.byqual.items():
        if f.endswith(".dynamics") and u.cls is not None and u.cls.qual in {base, *rep.ix.subclasses(base)}:
            ps = [a.arg for a in u.node.args.args if a.arg != "self"]
            bad = [(t, xs[0]) for t, xs in E.mut.get(f, {}).items() if t[0] == "p" and t[1] in ps]
            rep.ob("commands", f, not bad, f"{f} modifies its {bad[0][0][1] if bad else ''}: {bad[0][1][1] if bad else ''}", u.where(bad[0][1][0] if bad else u.node))
