"""What a collection contains: its generators (loops over elements, condition, value)."""
from .terms import *


def generators(t, cond=TRUE, loops=()):
    """-> [(loops, condition, value)]: the collection holds `value` for all elements of the loops that satisfy the condition.
    A part that cannot be taken apart is returned as (loops, condition, None, part)."""
    op = t.op
    if op in ("list", "tuple", "set", "arr"):
        out = []
        for a in t.args:
            if a.op == "guarded":
                out += generators(T("list", a.args[1]), land(cond, a.args[0]), loops)
            elif a.op in ("spread", "star"):
                out += generators(a.args[0], cond, loops)
            else:
                out.append((loops, cond, a))
        return out
    if op == "dict":
        return [(loops, cond, T("tuple", *kv)) for kv in t.args] if all(isinstance(x, tuple) for x in t.args) else [(loops, cond, None, t)]
    if op == "dupdate":
        return [g for a in t.args for g in generators(a, cond, loops)]
    if op in ("concat", "union"):
        return [g for a in t.args for g in generators(a, cond, loops)]
    if op == "guarded":
        return generators(t.args[1], land(cond, t.args[0]), loops)
    if op == "lappend":
        return generators(t.args[0], cond, loops) + [(loops, cond, t.args[1])]
    if op == "ite":
        return generators(t.args[1], land(cond, t.args[0]), loops) + generators(t.args[2], land(cond, lnot(t.args[0])), loops)
    if op == "comp":
        _, d, src, c, v = t.args
        loops = loops + ((T("elem", src, d), src),)
        cond = land(cond, c)
        if v.op == "spread":
            return generators(v.args[0], cond, loops)
        return [(loops, cond, v)]
    if op == "fn" and t.args[0] in ("list", "tuple", "set", "sorted", "frozenset") and len(t.args) == 2:
        return generators(t.args[1], cond, loops)
    if op == "fold":
        src, d, init, step, mu = t.args[:5]
        steps = grown(step, mu, TRUE)
        if steps is not None:
            out = generators(init, cond, loops)
            for c, v in steps:
                out.append((loops + ((T("elem", src, d), src),), land(cond, c), v))
            return out
    if op == "dset":
        return generators(t.args[0], cond, loops) + [(loops, cond, T("tuple", *t.args[1:3]))]
    if op == "fn" and t.args[0] in ("chain_from", "interleave_from") and len(t.args) == 2:
        out = []
        for g in generators(t.args[1], cond, loops):
            if g[2] is None:
                return [(loops, cond, None, t)]
            out += generators(g[2], g[1], g[0])
        return out
    if op == "add":
        return [g for a in t.args for g in generators(a, cond, loops)]
    return [(loops, cond, None, t)]


def grown(step, mu, c):
    """what one iteration adds to a collection that only grows -> [(condition, value)]"""
    if step is mu:
        return []
    if step.op == "ite":
        a, b = grown(step.args[1], mu, land(c, step.args[0])), grown(step.args[2], mu, land(c, lnot(step.args[0])))
        return None if a is None or b is None or contains(step.args[0], lambda x: x is mu) else a + b
    if step.op in ("dset", "lappend"):
        a = grown(step.args[0], mu, c)
        v = T("tuple", *step.args[1:3]) if step.op == "dset" else step.args[1]
        return None if a is None or contains(v, lambda x: x is mu) else a + [(c, v)]
    return None


def atoms(src, el):
    """The elementary draws of one loop: product(a, b) draws one element of each."""
    if src.op == "fn" and src.args[0] == "product":
        return [d for i, a in enumerate(src.args[1:]) for d in atoms(a, T("item", el, const(i)))]
    return [(el, src)]


def draws(loops, n=[1000]):
    """-> ([(element, source)], substitution): every elementary draw of nested loops; looping over a collection built by
    other loops draws from their sources."""
    out, sub = [], {}

    def add(el, src):
        if src.op == "fn" and src.args[0] == "product":
            for i, a in enumerate(src.args[1:]):
                add(T("item", el, const(i)), a)
            return
        if src.op in ("comp", "concat", "lappend") and not (src.op == "comp" and src.args[4] is T("elem", src.args[2], src.args[1])):
            gs = generators(src)
            if len(gs) == 1 and gs[0][2] is not None and gs[0][1] is TRUE:
                ren = {}
                for e, s in gs[0][0]:
                    n[0] += 1
                    ren[e] = T("elem", s, n[0])
                    add(ren[e], s)
                sub[el] = subst(gs[0][2], ren)
                return
        out.append((el, src))
    for el, src in loops:
        add(el, src)
    return out, sub
