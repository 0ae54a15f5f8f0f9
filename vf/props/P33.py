"""Liveness of every parameter of every function (a read counts only if what it flows into has consequences), symbolic construction of every class and symbolic
evaluation of every factory (what was passed is what the object holds), and of every option with a default (the default replaces it only when nothing was passed)."""
import ast
from ..absint import Interp, State
from ..faint import Faint
from ..norm import Norm
from ..scan import Scan
from ..terms import *

# parameters that exist only because the interface has them: (class or function, parameter) -> why
INTERFACE = {
    ("SpeedBehavior.get_speed_ref", "at"): "a behaviour may depend on time, this one reacts to the current observations only",
    ("FullRangeSensor.fov_as_polygon", "obstacles"): "a full range sensor sees through obstacles",
    ("NPAgent.on_episode_init", "init_sim_obs"): "plays a fixed plan",
    ("PolygonGoal.get_plottable_geometry", "at"): "static goal",
    ("PolygonGoal.is_fulfilled", "at"): "static goal",
    ("PoseGoal.get_plottable_geometry", "at"): "static goal",
    ("PoseGoal.is_fulfilled", "at"): "static goal",
    ("RefLaneGoal.get_plottable_geometry", "at"): "static goal",
    ("RefLaneGoal.is_fulfilled", "at"): "static goal",
    ("DiffDriveModel.get_velocity", "in_model_frame"): "reports no velocity in either frame",
    ("DiffDriveModel.set_velocity", "vel"): "kinematic model, cannot be pushed",
    ("DiffDriveModel.set_velocity", "omega"): "kinematic model, cannot be pushed",
    ("DiffDriveModel.set_velocity", "in_model_frame"): "kinematic model, cannot be pushed",
    ("VehicleModel.set_velocity", "omega"): "the rotational velocity follows from speed and steering angle",
    ("IdObsFilter.sense", "scenario"): "passes on all observations",
    ("IdObsFilter.sense", "pov"): "passes on all observations",
    ("SimRenderer.plot_arena", "ax"): "the renderer was constructed for its axes",
    ("Trajectory.merge_unsafe", "tol"): "the tolerance of its precondition",
}
WRAP = ("list", "tuple", "float", "int", "str", "copy", "deepcopy", "set", "frozenset", "asarray", "array")


def stub(node):
    """a function without effect or result"""
    for s in node.body:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Raise) and "NotImplementedError" in ast.dump(s):
            continue
        return False
    return True


def params(node, method):
    a = node.args
    r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    return r[1:] if method else r


def decos(node):
    return {ast.unparse(d).split("(")[0].split(".")[-1] for d in node.decorator_list}


def check(rep):
    rep.rule("used", "the value a parameter has on entry influences what the function returns, raises, yields or does")
    rep.rule("kept", "what is passed to a constructor is held by the object, under the same name unchanged")
    rep.rule("factory", "what is passed to a factory is held by the object it builds, under the same name unchanged")
    rep.rule("default", "a default replaces an argument exactly if none was passed")
    rep.rule("forwarded", "an option is passed on to a callee that has the same option")
    dead = used(rep)
    forwarded(rep)
    kept(rep)
    results(rep, dead)


BUILTINS = {"len", "isinstance", "issubclass", "all", "any", "min", "max", "abs", "sorted", "sum", "type", "getattr", "hasattr", "range", "zip", "enumerate", "float", "int", "str",
            "tuple", "list", "set", "dict", "frozenset", "round", "bool", "repr", "hash", "id", "map", "filter", "reversed"}


def harmless(sc, u, call):
    """a call that has no effect beyond its result"""
    f = call.func
    if isinstance(f, ast.Name) and f.id in BUILTINS:
        return True
    try:
        r = sc.resolve(u, f)
    except Exception:
        return False
    if r is None:
        return False
    if r[0] == "ext":
        return r[1].split(".")[0] in ("numpy", "math", "copy", "decimal") and ".random" not in r[1]
    return r[0] == "class" and sc.ix.is_dataclass(r[1])


def used(rep):
    sc = Scan(rep.ix)
    n, dead = 0, set()
    for u in sc.units:
        nd = u.node
        if not isinstance(nd, (ast.FunctionDef, ast.AsyncFunctionDef)) or "abstractmethod" in decos(nd) or "overload" in decos(nd) or stub(nd):
            continue
        cls = u.cls is not None
        short = ".".join(u.qual.split(".")[-2:]) if cls else u.qual.rsplit(".", 1)[-1]
        ps = params(nd, cls and "staticmethod" not in decos(nd))
        if nd.name in ("__exit__", "__aexit__", "__eq__", "__ne__", "__deepcopy__", "__reduce_ex__", "__set_name__", "__get__", "__format__", "__init_subclass__", "__class_getitem__"):
            continue
        live = Faint(lambda c: harmless(sc, u, c)).function(nd)
        rep.funcs.add(u.qual)
        for p in ps:
            if (short, p) in INTERFACE or p.startswith("_"):
                continue
            n += 1
            if p not in live:
                dead.add((u.qual, p))
            rep.ob("used", f"{u.qual}:{p}", p in live, f"the argument {p!r} has no influence", u.where(nd))
    rep.count("parameters", n, 600)
    return dead


def forwarded(rep):
    sc = Scan(rep.ix)
    n = 0
    for u in sc.units:
        nd = u.node
        if not isinstance(nd, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        a = nd.args
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} - {"self", "cls"}
        fun = {}
        for x, q in sc.callees(u):
            fun.setdefault(id(x), set()).add(q)
        for x in ast.walk(nd):
            if not isinstance(x, ast.Call):
                continue
            for q in sorted(fun.get(id(x.func), ())):
                cu = sc.byqual.get(q)
                if cu is None or q.endswith("__post_init__") or not isinstance(cu.node, (ast.FunctionDef, ast.AsyncFunctionDef)) or q == u.qual:
                    continue
                ca = cu.node.args
                opt = [p.arg for p in (ca.posonlyargs + ca.args)[len(ca.posonlyargs + ca.args) - len(ca.defaults):]] + [p.arg for p, d in zip(ca.kwonlyargs, ca.kw_defaults) if d is not None]
                al = [p.arg for p in ca.posonlyargs + ca.args]
                off = 1 if al[:1] in (["self"], ["cls"]) else 0
                if any(k.arg is None for k in x.keywords) or any(isinstance(z, ast.Starred) for z in x.args):
                    continue
                given = set(al[off:off + len(x.args)]) | {k.arg for k in x.keywords}
                for p in opt:
                    if p in ps:
                        n += 1
                        rep.ob("forwarded", f"{u.qual}->{q}:{p}", p in given, f"the option {p!r} is not passed on to {q.rsplit('.', 1)[-1]}", u.where(x))
    rep.count("options passed on", n, 10)


def typed(ip, ix, mod, p, ann):
    v = var(p)
    if ann is not None:
        try:
            ty = ip.ty.ann(mod, ann)
        except Exception:
            ty = None
        if ty is not None and ty.name in ix.classes:
            ip.types[v] = ty
    return v


def unwrap(v):
    while v.op == "fn" and v.args[0] in WRAP and len(v.args) == 2:
        v = v.args[1]
    return v


def pick(N, v, cx):
    v = unwrap(v)
    while v.op == "ite":
        v = unwrap(v.args[1] if N.truth(v.args[0], cx) else v.args[2])
    return v


def has(t, p):
    return contains(t, lambda x: x is p)


def choices(t, p):
    """the choices between p and something that does not depend on it"""
    for x in subterms(t):
        if x.op == "ite" and (x.args[1] is p) != (x.args[2] is p):
            o = x.args[2] if x.args[1] is p else x.args[1]
            o = subst(o, {x.args[0]: FALSE if x.args[1] is p else TRUE})
            if not has(o, p):
                yield x, o


def none_of(ip, p):
    return ip.compare("Is", p, NONE, State())


def bad_default(ip, ts, p, true):
    """a choice where the default can replace an argument that was passed"""
    none = none_of(ip, p)
    for t in ts:
        for x, o in choices(t, p):
            c = x.args[0]
            if not has(c, none) and not has(c, p):
                continue
            c2 = drop_truth(c, p) if true else c
            N = Norm(assume=[lnot(none)])
            if N.fails(c2 if x.args[1] is p else lnot(c2)) is not None:
                return f"{show(o)[:60]} replaces it if {show(c if x.args[2] is p else lnot(c))[:80]}"
    return None


FALSY = {"int", "float", "complex", "bool", "str", "bytes", "list", "List", "Sequence", "MutableSequence", "Mapping", "MutableMapping", "dict", "Dict", "set", "Set",
         "frozenset", "FrozenSet", "Decimal", "SimTime", "Timestamp", "ndarray", "Iterable", "Collection", "Any", "Callable", "DgSampledSequence", "Trajectory", "MultiPolygon", "Polygon"}


def falsy(ix, ann):
    """whether a value of the annotated type, other than None, can be false"""
    if ann is None:
        return True
    t = ann
    while isinstance(t, ast.Subscript) and ast.unparse(t.value).split(".")[-1] in ("Optional", "Final", "Annotated"):
        t = t.slice
    if isinstance(t, ast.BinOp):
        return falsy(ix, t.left) or falsy(ix, t.right)
    if isinstance(t, ast.Constant):
        if t.value is None:
            return False
        try:
            return falsy(ix, ast.parse(t.value, mode="eval").body)
        except (SyntaxError, TypeError):
            return True
    if isinstance(t, ast.Subscript):
        h = ast.unparse(t.value).split(".")[-1]
        if h in ("tuple", "Tuple"):
            return "..." in ast.unparse(t.slice) or not ast.unparse(t.slice)
        if h == "Union":
            return any(falsy(ix, x) for x in (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]))
        return h in FALSY
    n = ast.unparse(t).split(".")[-1]
    if n in FALSY:
        return True
    try:
        q = ix.cls(n).qual
    except Exception:
        return False
    return any(ix.find_method(q, m) for m in ("__bool__", "__len__"))


def drop_truth(c, p):
    """the condition, given that p counts as true"""
    if c is p:
        return TRUE
    if c.op in ("and", "or"):
        return (land if c.op == "and" else lor)(*[drop_truth(x, p) for x in c.args])
    return lnot(drop_truth(c.args[0], p)) if c.op == "not" else c


def kept(rep):
    ix = rep.ix
    n = 0
    for q, ci in sorted(ix.classes.items()):
        init = ix.find_method(q, "__init__")
        ip, st = Interp(ix), State()
        if ix.is_dataclass(q) and init is None:
            ps = [(f[0], f[3], f[1].mod) for f in ix.dc_fields(q) if not ip._no_init(f[2])]
            required = {f[0] for f in ix.dc_fields(q)}
        elif init:
            a = init[1].args
            ps = [(x.arg, x.annotation, init[0].mod) for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs]
        else:
            continue
        if any("Enum" in b for b in ix.ext_bases(q)):
            continue
        anns = {p: ann for p, ann, m in ps}
        kw = [(p, typed(ip, ix, m, p, ann)) for p, ann, m in ps]
        o = ip.instantiate(q, [], kw, st, None)
        if o.op != "ref" or st.pc is FALSE:
            continue
        rep.funcs.add(q + ".__init__")
        w = f"{ci.mod.path}:{(init[1] if init else ci.node).lineno} {q}"
        heap = {k[1]: ip.freeze(v, st) for k, v in st.heap.items() if k[0] is o and isinstance(k[1], str)}
        extra = [ip.freeze(v, st) for k, v in st.heap.items() if k[0].op == "ref" and k[0] is not o] + [t for e in ip.effects if e.kind in ("call", "mutate", "setitem", "store") for t in values(e)]
        for p, v in kw:
            if q.rsplit(".", 1)[-1] in ("DgSampledSequence", "Trajectory") and p in ("_timestamps", "_values"):
                continue  # the storage, filled from the other two
            n += 1
            f = next((a for a in (p, "_" + p) if a in heap), None)
            rep.ob("kept", f"{q}:{p}", any(has(t, v) for t in heap.values()) or any(has(t, v) for t in extra), f"the argument {p!r} does not reach the object", w)
            if f is not None and (has(heap[f], v) or not any(has(t, v) for a, t in heap.items() if a != f)):
                rep.ob("kept", f"{q}.{f}", has(heap[f], v), f"{f} is {show(heap[f])[:80]} whatever is passed", w)
            elif f is not None:
                other = next((p2 for p2, v2 in kw if v2 is unwrap(heap[f])), None)
                rep.ob("kept", f"{q}.{f}", other is None, f"{f} is the argument {other!r}", w)
            why = bad_default(ip, heap.values(), v, not falsy(ix, anns[p]))
            rep.ob("default", f"{q}:{p}", why is None, f"default of {p!r}: {why}", w)
    rep.count("constructor arguments", n, 350)


def values(e):
    for t in [e.guard, e.fvalue, e.ftarget] + list(e.fargs or []) + [x[1] if isinstance(x, tuple) else x for x in (e.kwargs or ())]:
        if isinstance(t, T):
            yield t


def results(rep, dead):
    ix = rep.ix
    n = k = 0
    slow = {ix.func("run_simulation").qual, ix.method("Simulator", "run").qual if ix.method("Simulator", "run") else ""}
    for q, fi in sorted(ix.funcs.items()):
        d = decos(fi.node)
        if "abstractmethod" in d or stub(fi.node) or q in slow:
            continue
        a = fi.node.args
        al = a.posonlyargs + a.args
        opts = dict(zip([x.arg for x in al[len(al) - len(a.defaults):]], a.defaults)) | {x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        factory = fi.cls is None or d & {"classmethod", "staticmethod"}
        if not factory and not opts or fi.node.name == "__init__":
            continue
        ip, st = Interp(ix), State()
        kw = {x.arg: typed(ip, ix, fi.mod, x.arg, x.annotation) for x in al + a.kwonlyargs}
        anns = {x.arg: x.annotation for x in al + a.kwonlyargs}
        ps = list(kw)
        if fi.cls and "staticmethod" not in d:
            kw[ps[0]] = T("cls", fi.cls.qual) if "classmethod" in d else ip.typed("self", fi.cls.qual)
            ps = ps[1:]
        if "contextmanager" in d or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fi.node)):
            continue
        r = ip.run(fi, kw, st=st)
        rep.funcs.add(q)
        v = ip.freeze(r.value, r.state)
        w = f"{fi.mod.path}:{fi.node.lineno} {q}"
        eff = [t for e in r.effects if e.kind not in ("new", "assert") for t in values(e)]
        for p in opts:
            k += 1
            why = bad_default(ip, [v, *eff], kw[p], not falsy(ix, anns[p]))
            rep.ob("default", f"{q}:{p}", why is None, f"default of {p!r}: {why}", w)
        if factory and v.op == "rec" and not any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fi.node) if x is not fi.node):
            fs = dict(v.args[1])
            for p in ps:
                if (q, p) in dead:
                    continue
                n += 1
                rep.ob("factory", f"{q}:{p}", has(v, kw[p]) or any(has(t, kw[p]) for t in eff) or has(r.state.pc, kw[p]), f"the argument {p!r} has no influence on the result", w)
                if p in fs:
                    none = none_of(ip, kw[p])
                    N = Norm(assume=[lnot(none)])
                    bad = next((cx.log for cx, ok in N.each(lambda cx: unwrap(pick(N, fs[p], cx)) is kw[p] or N.same(pick(N, fs[p], cx), kw[p], cx) is None) if not ok), None)
                    rep.ob("factory", f"{q}.{p}", bad is None, f"the field {p} is {show(fs[p])[:80]}, not the argument", w)
    rep.count("factory arguments", n, 120)
    rep.count("options", k, 60)
