"""Symbolic evaluation of every conversion and arithmetic operator of every state and command type, compared component by component."""
from ..absint import Interp, State
from ..norm import Norm
from ..terms import *
from ..types import Ty

OPS = [("__add__", "add", True), ("__radd__", "add", True), ("__sub__", "sub", True), ("__mul__", "mul", False), ("__rmul__", "mul", False), ("__truediv__", "div", False)]


def vector_types(ix):
    out = []
    for q in sorted(ix.classes):
        if ix.find_method(q, "from_array") and ix.find_method(q, "as_ndarray") and ix.find_attr(q, "idx") is not None:
            if not any("abstractmethod" in [getattr(d, "id", "") for d in ix.find_method(q, m)[1].decorator_list] for m in ("from_array", "as_ndarray")):
                out.append(q)
    return out


def numeric(ix, q):
    num, other = [], []
    for nm, owner, dv, ann in ix.dc_fields(q):
        if nm == "idx":
            continue
        s = __import__("ast").unparse(ann) if ann is not None and not isinstance(ann, str) else str(ann)
        (num if s.strip("'\"") in ("float", "int") else other).append(nm)
    return num, other


def check(rep):
    ix = rep.ix
    rep.rule("index", "the index table names every numeric component once, with positions 0..n-1")
    rep.rule("to-vector", "the vector holds each component at its position")
    rep.rule("from-vector", "an object made from a vector has each component from its position")
    rep.rule("round-trip", "converting to a vector and back gives the same components")
    rep.rule("arithmetic", "operators act on every component separately and keep the other fields of the left operand")
    rep.rule("pure", "operators and conversions do not change their operands")
    qs = vector_types(ix)
    rep.count("vector types", len(qs), 12)
    for q in qs:
        name = q.split(".")[-1]
        num, other = numeric(ix, q)
        N = Norm()

        def fresh():
            ip = Interp(ix)
            st = State()
            vs = {}
            for k in ("s", "o"):
                v = var(k)
                ip.types[v] = Ty(q)
                ip.exact.add(v)
                vs[k] = v
            return ip, st, vs["s"], vs["o"]

        def call(ip, st, recv, meth, *args):
            m = ix.find_method(q, meth)
            f = T("bound", recv, m[0].qual + "." + meth)
            return ip.call(f, args, (), st, None)

        def loc(meth):
            m = ix.find_method(q, meth)
            return f"{m[0].mod.path}:{m[1].lineno} {m[0].qual}.{meth}" if m else q

        def get(ip, st, v, k):
            return ip.freeze(ip.getattr(v, k, st), st)
        ip, st, s, o = fresh()
        idx = ip.freeze(ip.getattr(T("cls", q), "idx", st), st)
        d = {}
        if idx.op == "dict":
            d = {k.args[0]: v.args[0] for k, v in idx.args if k.op == "const" and v.op == "const"}
        w = f"{ix.classes[q].mod.path}:{ix.classes[q].node.lineno} {q}"
        rep.ob("index", name, set(d) == set(num) and sorted(d.values()) == list(range(len(num))), f"index table {d} for components {num}", w)
        n = len(num)
        if set(d) != set(num) or sorted(d.values()) != list(range(n)):
            continue
        for meth in ("get_n_states", "get_n_commands"):
            if ix.find_method(q, meth):
                v = ip.call(ip.getattr(T("cls", q), meth, st), (), (), st, None)
                rep.eq("index", f"{name}.{meth}", N, ip.freeze(v, st), const(n), loc(meth))
        # to vector
        v = ip.freeze(call(ip, st, s, "as_ndarray"), st)
        ok = v.op == "arr" and len(v.args) == n
        rep.ob("to-vector", f"{name}-length", ok and not ip.raises, f"as_ndarray gives {show(v)[:200]}", loc("as_ndarray"))
        if ok:
            for k in num:
                rep.eq("to-vector", f"{name}-{k}", N, v.args[d[k]], T("attr", s, k), loc("as_ndarray"))
        quiet(rep, ip, name, "as_ndarray", loc)
        rep.funcs |= ip.visited
        # from vector
        ip, st, s, o = fresh()
        z = T("arr", *(var(f"z{i}") for i in range(n)))
        r = ip.call(ip.getattr(T("cls", q), "from_array", st), (z,), (), st, None)
        cls = ip.clsof(r)
        rep.ob("from-vector", f"{name}-type", cls == q, f"from_array makes a {cls}", loc("from_array"))
        rep.ob("from-vector", f"{name}-accepts", not ip.raises and st.pc is TRUE, "a vector of the right size is refused", loc("from_array"))
        for k in num:
            rep.eq("from-vector", f"{name}-{k}", N, get(ip, st, r, k), var(f"z{d[k]}"), loc("from_array"))
        quiet(rep, ip, name, "from_array", loc)
        rep.funcs |= ip.visited
        # there and back
        ip, st, s, o = fresh()
        v = call(ip, st, s, "as_ndarray")
        r = ip.call(ip.getattr(T("cls", q), "from_array", st), (v,), (), st, None)
        for k in num:
            rep.eq("round-trip", f"{name}-{k}", N, get(ip, st, r, k), T("attr", s, k), loc("from_array"))
        # operators
        for meth, op, both in OPS:
            if not ix.find_method(q, meth) and ix.find_attr(q, meth) is None:
                continue
            ip, st, s, o = fresh()
            val = var("k")
            f = ip.getattr(s, meth, st)
            r = ip.call(f, (o if both else val,), (), st, None)
            L = loc(meth) if ix.find_method(q, meth) else w
            rep.ob("arithmetic", f"{name}.{meth}-defined", st.pc is TRUE, f"defined only if {show(st.pc)[:100]}", L)
            rep.ob("arithmetic", f"{name}.{meth}-type", ip.clsof(r) == q, f"gives a {ip.clsof(r)}", L)
            for k in num:
                a, b = T("attr", s, k), T("attr", o, k) if both else val
                # divisors are non-zero
                rep.eq("arithmetic", f"{name}.{meth}-{k}", N, get(ip, st, r, k), T(op, a, b), L)
            for k in other if meth != "__radd__" else ():
                rep.eq("arithmetic", f"{name}.{meth}-{k}", N, get(ip, st, r, k), T("attr", s, k), L)
            quiet(rep, ip, name, meth, loc)
            rep.notes += ip.notes
            rep.funcs |= ip.visited
        # adding another type is refused
        if ix.find_method(q, "__add__"):
            ip, st, s, o = fresh()
            alien = var("alien")
            t = [x for x in qs if x != q and q not in [c for c in ix.mro(x)] and x not in ix.mro(q)][0]
            ip.types[alien] = Ty(t)
            ip.exact.add(alien)
            call(ip, st, s, "__add__", alien)
            rep.ob("arithmetic", f"{name}.__add__-other-type", st.pc is FALSE, "adding an object of another type is accepted", loc("__add__"))


def quiet(rep, ip, name, meth, loc):
    bad = [e for e in ip.effects if e.kind in ("store", "setitem", "mutate") and root(e.target).op == "var"]
    rep.ob("pure", f"{name}.{meth}", not bad, f"changes {bad[:1]!r}"[:300], bad[0].where() if bad else loc(meth))


def root(t):
    while t.op in ("attr", "item"):
        t = t.args[0]
    return t
