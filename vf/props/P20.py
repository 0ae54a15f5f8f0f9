"""Symbolic construction of every parameter type, context, scenario, controller and sensor, comparing the condition under which construction completes with the
condition under which the configuration is valid."""
from ..absint import Interp, State
from ..bounded import PI
from ..norm import Norm
from ..terms import *
from .P29 import ref_dict


def build(ix, q, kw, ip=None, st=None):
    """the condition under which the constructor returns, and where the class is"""
    ip = ip or Interp(ix)
    st = st or State()
    ip.strict = True
    o = ip.instantiate(q, [], list(kw.items()), st, None)
    return o, st.pc, ip, st


def at(ix, q):
    ci = ix.classes[q]
    m = ix.find_method(q, "__post_init__")
    return f"{m[0].mod.path}:{m[1].lineno} {m[0].qual}.__post_init__" if m else f"{ci.mod.path}:{ci.node.lineno} {q}"


def pair(n):
    return T("tuple", var(n + ".min"), var(n + ".max"))


def LT(a, b):
    return T("cmp", "lt", a, b)


def check(rep):
    ix = rep.ix
    rep.rule("limits", "construction completes exactly if every (min, max) range has min < max and every maximum is positive, inherited ones included")
    rep.rule("kept", "the object holds the values that were checked")
    rep.rule("context", "a context is constructed exactly if names, missions and types are consistent")
    rep.rule("scenario", "a scenario is constructed exactly if its type and those of its obstacles are right and, where it is used, the buffer is not negative")
    rep.rule("controller", "a controller's parameters are accepted exactly if none of its ranges is empty")
    rep.rule("sensor", "a sensor is accepted exactly if its field of view is at most a full circle and its range is not negative")
    parameters(rep)
    controllers(rep)
    sensors(rep)
    context(rep)
    scenario(rep)


def family(ix, name):
    q = ix.cls(name).qual
    return [q] + sorted(ix.subclasses(q))


def parameters(rep):
    ix = rep.ix
    n = 0
    for q in family(ix, "ModelParameters"):
        cons, kw = [], {}
        for f, owner, default, ann in ix.dc_fields(q):
            if f.endswith("_limits"):
                kw[f] = pair(f)
                cons.append(LT(*kw[f].args))
            else:
                kw[f] = var(f)
                if f.endswith("_max"):
                    cons.append(LT(ZERO, kw[f]))
        n += len(cons)
        one(rep, "limits", q, kw, cons)
        defaults(rep, q)
    rep.count("limits", n, 25)


def one(rep, rule, q, kw, cons, skip=()):
    ix = rep.ix
    o, pc, ip, st = build(ix, q, kw)
    rep.funcs.add(q)
    nm = q.rsplit(".", 1)[-1]
    bad = [e for e in ip.effects if e.kind == "badcall"]
    rep.ob(rule, nm + ":constructed", o.op == "ref" and not bad, f"not built by its declared constructor ({[show(e.value) for e in bad]})", at(ix, q))
    if o.op != "ref":
        return
    for i, c in enumerate(cons):
        rep.holds(rule, f"{nm}:{show(c)}", Norm(assume=list(skip) + [pc]), c, at(ix, q), what=f"accepted although not {show(c)}")
    rep.holds(rule, nm + ":valid", Norm(assume=list(skip) + cons), pc, at(ix, q), what="a valid configuration is refused")
    for f, v in kw.items():
        rep.eq("kept", f"{nm}.{f}", Norm(assume=cons), ip.freeze(ip.getattr(o, f, st), st), v, at(ix, q))


def defaults(rep, q):
    """the package's own defaults are valid"""
    ix = rep.ix
    for name, fn in sorted(ix.classes[q].methods.items()) if hasattr(ix.classes[q], "methods") else []:
        if not name.startswith("default"):
            continue
        ip, st = Interp(ix), State()
        ip.strict = True
        ip.call(T("bound", T("cls", q), q + "." + name), (), (), st, None)
        rep.holds("limits", f"{q.rsplit('.', 1)[-1]}.{name}", Norm(), st.pc, at(ix, q), what="the default parameters are refused")


def controllers(rep):
    ix = rep.ix
    for q in family(ix, "PIDParam"):
        kw, cons = {}, []
        for f, owner, default, ann in ix.dc_fields(q):
            if f in ("antiwindup", "setpoint_minmax", "output_minmax"):
                kw[f] = pair(f)
                cons.append(LT(*kw[f].args))
            else:
                kw[f] = var(f)
        rep.count("ranges", len(cons), 3)
        one(rep, "controller", q, kw, cons)
        # the default values are accepted
        _, pc, ip, st = build(ix, q, {})
        rep.holds("controller", q.rsplit(".", 1)[-1] + ":defaults", Norm(), pc, at(ix, q), what="the default parameters are refused")


def sensors(rep):
    ix = rep.ix
    for q in family(ix, "Sensor"):
        fs = {f for f, *_ in ix.dc_fields(q)}
        r, fov = var("range"), var("field_of_view")
        cons = [lnot(LT(r, ZERO)), lnot(LT(T("mul", const(2), PI), fov))]
        kw = {"range": r, "field_of_view": fov}
        one(rep, "sensor", q, {k: v for k, v in kw.items() if k in fs}, cons, skip=[T("or", LT(r, ZERO), LT(ZERO, r))])


class Setup:
    """a context over a few players; every object has a known class"""
    def __init__(self, ix):
        self.ix, self.ip, self.st = ix, Interp(ix), State()

    def obj(self, c):
        return self.ip.new_ref(self.ix.cls(c).qual)

    def dict(self, d):
        return ref_dict(self.ip, self.st, [(const(k), v) for k, v in d.items()])


def context(rep):
    ix = rep.ix
    q = ix.cls("SimContext").qual
    names = ["P1", "P2"] if rep.tier == "quick" else ["P1", "P2", "P3"]
    w = at(ix, q)
    concrete = lambda base: [c.rsplit(".", 1)[-1] for c in sorted(ix.subclasses(ix.cls(base).qual))]
    M, A, G = concrete("SimModel"), concrete("Agent"), concrete("PlanningGoal")
    rep.count("models", len(M), 6)
    rep.count("goals", len(G), 2)
    cnt = 0

    def case(label, ok, models, players, missions="none", scen="DgScenario", msg=""):
        nonlocal cnt
        cnt += 1
        S = Setup(ix)
        mk = lambda d: S.dict({k: S.obj(c) if isinstance(c, str) else c for k, c in d.items()})
        kw = {"dg_scenario": S.obj(scen) if isinstance(scen, str) else scen, "models": mk(models), "players": mk(players), "param": var("param")}
        if missions is None:
            kw["missions"] = NONE
        elif missions != "none":
            kw["missions"] = mk(missions)
        _, pc, _, _ = build(ix, q, kw, S.ip, S.st)
        N = Norm()
        if ok:
            rep.holds("context", label, N, pc, w, what="a consistent context is refused" + msg)
        else:
            rep.holds("context", label, N, lnot(pc), w, what="an inconsistent context is accepted" + msg)

    cyc = lambda cs, i=0: {n: cs[(i + k) % len(cs)] for k, n in enumerate(names)}
    m0, a0 = cyc(M), cyc(A)
    rev = lambda d: dict(reversed(list(d.items())))
    goal = lambda ns: {n: G[i % len(G)] for i, n in enumerate(ns)}
    case("consistent:no-missions", True, m0, a0)
    case("consistent:missions-none", True, m0, a0, None)
    case("consistent:empty-missions", True, m0, a0, {})
    case("consistent:order", True, m0, rev(a0), goal(names))
    case("consistent:nobody", True, {}, {})
    for n in names:
        case(f"consistent:mission-{n}", True, m0, a0, goal([n]))
    for i in range(len(M)):
        case(f"consistent:model-{M[i]}", True, cyc(M, i), a0)
    for g in G:
        case(f"consistent:goal-{g}", True, m0, a0, {names[0]: g})
    for i in range(len(A)):
        case(f"consistent:agent-{A[i]}", True, m0, cyc(A, i))
    for n in names:
        less = lambda d: {k: v for k, v in d.items() if k != n}
        case(f"no-agent:{n}", False, m0, less(a0), msg=" (a model without agent)")
        case(f"no-model:{n}", False, less(m0), a0, msg=" (an agent without model)")
        other = {**less(a0), "Other": A[0]}
        case(f"other-agent:{n}", False, m0, other, msg=" (as many agents as models, under another name)")
        case(f"mission-not-goal:{n}", False, m0, a0, {**goal(names), n: M[0]}, msg=" (a mission that is no goal)")
        case(f"model-not-model:{n}", False, {**m0, n: A[0]}, a0, msg=" (a model of the wrong type)")
        case(f"agent-not-agent:{n}", False, m0, {**a0, n: M[0]}, msg=" (an agent of the wrong type)")
        case(f"only-mission-not-goal:{n}", False, m0, a0, {n: A[0]}, msg=" (a mission that is no goal)")
    case("foreign-mission", False, m0, a0, {"Other": G[0]}, msg=" (a mission of an unknown player)")
    case("foreign-mission-after", False, m0, a0, {**goal(names), "Other": G[0]}, msg=" (a mission of an unknown player)")
    case("foreign-mission-before", False, m0, a0, {"Other": G[0], **goal(names)}, msg=" (a mission of an unknown player)")
    case("scenario-type", False, m0, a0, scen=M[0], msg=" (a scenario of the wrong type)")
    case("scenario-none", False, m0, a0, scen=NONE, msg=" (no scenario)")
    case("nobody-but-scenario-type", False, {}, {}, scen=NONE, msg=" (no scenario)")
    rep.count("contexts", cnt, 20)


def scenario(rep):
    ix = rep.ix
    q = ix.cls("DgScenario").qual
    w = at(ix, q)
    buf = var("buffer")
    road = ix.func("build_road_boundary_obstacle").qual
    CR = "commonroad.scenario.scenario.Scenario"
    cnt = 0
    for has in ("none", "right", "wrong"):
        for obstacles, good in ((None, True), ((), True), (("S",), True), (("S", "S"), True), (("M",), False), (("S", "M"), False), (("M", "S"), False)):
            for use in (FALSE, TRUE, var("use")):
                for default_buffer in (False, True):
                    S = Setup(ix)
                    S.ip.overrides[road] = lambda ip, st, a, k, n: T("tuple", T("list", var("bound1"), var("bound2")), var("gates"))
                    kw = {"use_road_boundaries": use}
                    if has == "right":
                        kw["scenario"] = S.ip.new_ref("#Scenario")
                        S.ip.ext_types[kw["scenario"]] = CR
                    elif has == "wrong":
                        kw["scenario"] = S.obj("PolygonGoal")
                    if obstacles is not None:
                        kw["static_obstacles"] = S.ip.mk_list([S.obj("StaticObstacle" if o == "S" else "PolygonGoal") for o in obstacles], S.st)
                    if not default_buffer:
                        kw["road_boundaries_buffer"] = buf
                    _, pc, _, _ = build(ix, q, kw, S.ip, S.st)
                    cnt += 1
                    want = FALSE if has == "wrong" or not good else TRUE
                    if has == "right" and not default_buffer:
                        want = land(want, T("or", lnot(use), lnot(LT(buf, ZERO)))) if want is TRUE else want
                        if use is FALSE:
                            want = TRUE if good else FALSE
                    rep.equiv("scenario", f"{has}:{obstacles}:{show(use)}:{'default' if default_buffer else 'buffer'}", Norm(), pc, want, w)
    rep.count("scenarios", cnt, 40)
