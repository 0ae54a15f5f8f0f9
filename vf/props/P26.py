"""Abstract evaluation of the displayed light colours for every command, phase of the sequence and braking or not, with effect analysis of the shared tables."""
import ast
from ..absint import Interp, State
from ..effects import Effects
from ..scan import Scan
from ..simx import rec_field
from ..terms import *
from ..types import Ty

SIDES = {"left": ("front_left", "back_left"), "right": ("front_right", "back_right")}
FIELDS = ("front_left", "front_right", "back_left", "back_right")
ACC, TIME = var("acc"), var("t")


def check(rep):
    ix = rep.ix
    rep.rule("complete", "every light command has a sequence of phases, and each phase has four colours")
    rep.rule("in-turn", "the phases are shown in turn, as a function of time only")
    rep.rule("side", "turn signals light up on their own side only, hazard lights on both, headlights at the front")
    rep.rule("brake", "exactly while braking, lights that are the normal rear red are bright red; nothing else changes")
    rep.rule("immutable", "displaying never changes the shared definitions, which cannot be changed")
    rep.rule("passed", "the colours displayed are those of the vehicle's own light command and acceleration")
    mod = ix.func("get_phased_lights").mod
    fi = ix.func("lights_colors_from_lights_cmd")
    w = f"{fi.mod.path}:{fi.node.lineno} {fi.qual}"
    ip, st = Interp(ix), State()
    names = [s.targets[0].id for s in mod.tree.body if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "LightsCmd"]
    cmds = {n: glob(ip, mod, n, st) for n in names}
    rep.count("light commands", len(cmds), 5)
    lv = glob(ip, mod, "LightsValues", st)
    got = set(lv.args) if lv.op == "set" else set(lv.args[1].args) if lv.op == "fn" and lv.args[1].op in ("set", "list", "tuple") else None
    rep.ob("complete", "LightsValues", got == set(cmds.values()) and len(set(cmds.values())) == len(cmds), f"all light commands are {show(lv)[:200]}, defined are {[show(c) for c in cmds.values()]}", f"{mod.path}:1")
    shown = {}
    for n, c in cmds.items():
        shown[n] = display(rep, ix, fi, n, c, w)
    if any(v is None for v in shown.values()):
        return
    off = {b: v for b, v in shown["NO_LIGHTS"][0].items()} if shown.get("NO_LIGHTS") else None
    if not rep.ob("side", "NO_LIGHTS", off is not None and len(shown["NO_LIGHTS"]) == 1 or all(p == shown["NO_LIGHTS"][0] for p in shown["NO_LIGHTS"]), "without lights the display changes", w):
        return
    off = shown["NO_LIGHTS"][0][False]
    normal = off["back_left"]
    rep.ob("brake", "normal rear red", off["back_left"] == off["back_right"], f"{off}", w)
    bright = shown["NO_LIGHTS"][0][True]["back_left"]
    rep.ob("brake", "bright red", bright != normal and bright != off["front_left"], f"brake lights are {show(bright)}, the normal rear colour {show(normal)}", w)
    for n, ph in shown.items():
        for k, p in enumerate(ph):
            for f in FIELDS:
                want = bright if f.startswith("back") and p[False][f] == normal else p[False][f]
                rep.ob("brake", f"{n} phase {k} {f}", p[True][f] == want, f"{f} is {show(p[True][f])} when braking, {show(p[False][f])} otherwise; must be {show(want)}", w)
        lit = [{f for f in FIELDS if p[False][f] != off[f]} for p in ph]
        on = [x for x in lit if x]
        want = {"LIGHTS_TURN_LEFT": set(SIDES["left"]), "LIGHTS_TURN_RIGHT": set(SIDES["right"]), "LIGHTS_HAZARD": set(FIELDS), "LIGHTS_HEADLIGHTS": {"front_left", "front_right"}, "NO_LIGHTS": None}.get(n)
        if n in ("LIGHTS_TURN_LEFT", "LIGHTS_TURN_RIGHT", "LIGHTS_HAZARD"):
            rep.ob("side", n, on and all(x == want for x in on), f"lit are {[sorted(x) for x in lit]}, must be {sorted(want)}", w)
            rep.ob("side", n + " blinks", len(on) < len(lit), "never off", w)
        elif n == "LIGHTS_HEADLIGHTS":
            rep.ob("side", n, on and all(x == want for x in lit), f"lit are {[sorted(x) for x in lit]}", w)
    # immutability
    E = Effects(Scan(ix))
    rep.ob("immutable", "LightsColors", ix.frozen(ix.cls("LightsColors").qual), "the colours of a phase can be changed", f"{mod.path}:{ix.cls('LightsColors').node.lineno}")
    tables = {s.target.id if isinstance(s, ast.AnnAssign) else s.targets[0].id for s in mod.tree.body if isinstance(s, (ast.Assign, ast.AnnAssign)) and (isinstance(s, ast.AnnAssign) or isinstance(s.targets[0], ast.Name))}
    for q, m in E.mut.items():
        for tok, where in m.items():
            if tok[0] == "g" and tok[1].startswith(mod.name + ".") and tok[1].split(".")[-1] in tables:
                rep.ob("immutable", f"{q}:{tok[1]}", False, f"{q} changes {tok[1]}: {where[0][1]}", q)
    for fn in ("get_phased_lights", "lights_colors_from_lights_cmd", "get_lights_colors_from_cmds"):
        f = ix.func(fn)
        bad = list(E.mut.get(f.qual, {}).items())
        rep.ob("immutable", fn, not bad, f"changes {bad and bad[0][0][1]}: {bad and bad[0][1][0][1]}", f"{f.mod.path}:{f.node.lineno}")
    passed(rep, ix, fi)


def glob(ip, mod, name, st):
    return ip.freeze(ip.global_value(mod, name), st)


def display(rep, ix, fi, n, c, w):
    """[{braking: {light: colour}}] for each phase of command c."""
    ip, st = Interp(ix), State()
    r = ip.run(fi, {"lights_cmd": c, "acc": ACC, "t": TIME}, st=st)
    rep.saw(r)
    bad = [o for o in ip.raises if o.st.pc is not FALSE]
    if not rep.ob("complete", n, r.value is not None and not bad, f"no display: {[show(o.value)[:100] for o in bad]}", w):
        return None
    v = ip.freeze(r.value, r.state)
    mods = {s for s in subterms(v) if s.op == "mod" and contains(s, lambda x: x is TIME)}
    brake = T("cmp", "lt", ACC, ZERO)
    if not mods:
        rest = [s for s in subterms(v) if s is TIME]
        rep.ob("in-turn", n, not rest, "the display depends on time other than by the phase", w)
        n_ph = 1
    else:
        ok = len(mods) == 1 and isconst(next(iter(mods)).args[1])
        m = next(iter(mods))
        idx = m.args[0]
        free = {s for s in subterms(idx) if s.op in ("var", "attr", "mcall", "call", "clock")}
        if not rep.ob("in-turn", n, ok and free == {TIME} and monotone(idx), f"phase index is {[show(x)[:150] for x in mods]}", w):
            return None
        n_ph = m.args[1].args[0]
    out = []
    for k in range(n_ph):
        row = {}
        for b in (False, True):
            def f(x):
                if x.op == "mod" and x in mods:
                    return const(k)
                if x is brake:
                    return TRUE if b else FALSE
                if x.op == "ite":
                    return ite(*x.args)
                if x.op == "item":
                    return ip.getitem(*x.args, st)
                if x.op == "attr":
                    if x.args[0].op == "rec":
                        return rec_field(x.args[0], x.args[1])
                    return x
                if x.op == "cmp":
                    return ip.compare({"eq": "Eq", "lt": "Lt", "is": "Is", "in": "In"}[x.args[0]], x.args[1], x.args[2], st)
                if x.op == "not":
                    return lnot(x.args[0])
                if x.op == "and":
                    return land(*x.args)
                if x.op == "or":
                    return lor(*x.args)
                return x
            u = rebuild(v, f)
            cols = {l: rebuild(rec_field(u, l), f) if rec_field(u, l) is not None else None for l in FIELDS} if u.op == "rec" else None
            good = cols is not None and all(x is not None and x.op == "tuple" and all(isconst(y) for y in x.args) for x in cols.values())
            if not rep.ob("complete", f"{n} phase {k}{' braking' if b else ''}", good, f"shows {show(u)[:200]}", w):
                return None
            row[b] = cols
        out.append(row)
    return out


def monotone(t):
    """the index grows with time through rounding, scaling and shifting only."""
    if t is TIME:
        return True
    if t.op == "fn" and t.args[0] in ("int", "round", "floor", "float", "ceil", "trunc") and len(t.args) == 2:
        return monotone(t.args[1])
    if t.op in ("div", "floordiv"):
        return monotone(t.args[0]) and isconst(t.args[1]) and t.args[1].args[0] > 0
    if t.op in ("mul", "add", "sub"):
        vs = [x for x in t.args if not isconst(x)]
        return len(vs) == 1 and monotone(vs[0]) and (t.op != "sub" or t.args[0] is vs[0]) and (t.op != "mul" or all(x.args[0] > 0 for x in t.args if isconst(x)))
    return False


def passed(rep, ix, fi):
    f2 = ix.func("get_lights_colors_from_cmds")
    w = f"{f2.mod.path}:{f2.node.lineno} {f2.qual}"
    ps = [a.arg for a in f2.node.args.args]
    n = 0
    for q in sorted(ix.classes):
        fs = [x for x, _, _, _ in ix.dc_fields(q)]
        if "lights" not in fs or "acc" not in fs:
            continue
        ip, st = Interp(ix, opaque={fi.qual}), State()
        C = var("cmds")
        ip.types[C] = Ty(q)
        ip.exact.add(C)
        r = ip.run(f2, {ps[0]: C, ps[1]: TIME}, st=st)
        v = ip.freeze(r.value, r.state) if r.value is not None else None
        if v is not None:  # the display of a command does not fail
            v = subst(v, {x: FALSE for x in subterms(v) if x.op == "raised"})
        n += 1
        d = {}
        if v is not None and v.op == "call":
            d = dict(zip([a.arg for a in fi.node.args.args], v.args[1]))
            d.update(dict(v.args[2]))
        rep.ob("passed", q.split(".")[-1], v is not None and v.op == "call" and v.args[0] == fi.qual and d.get("lights_cmd") is T("attr", C, "lights") and d.get("acc") is T("attr", C, "acc") and d.get("t") is TIME,
               f"colours are {show(v)[:250] if v is not None else None}", w)
    rep.count("commands with lights", n, 1)
