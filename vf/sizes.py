"""Decisions on the number of elements beyond the sizes an analysis covers: they would make the covered sizes unrepresentative."""
import ast


def size_tests(ix, quals, top):
    """(function, node, where) of every comparison of a length, slice bound or maxlen with a constant of at least `top`"""
    for q in sorted(quals):
        fi = ix.funcs.get(q)
        if fi is None:
            continue
        cls = getattr(fi, "cls", None)
        ci = ix.classes.get(cls) if isinstance(cls, str) else cls
        lens, consts = set(), {}
        for n in ast.walk(fi.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Name):
                        if _len(n.value, ()):
                            lens.add(t.id)
                        if isinstance(n.value, ast.Constant):
                            consts[t.id] = n.value

        def val(x):
            if isinstance(x, ast.UnaryOp):
                x = x.operand
            if isinstance(x, ast.Name):
                if x.id in consts:
                    return consts[x.id]
                d = fi.mod.defs.get(x.id)
                return d[1] if d and d[0] == "assign" else x
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and ci is not None and x.attr in ci.attrs:
                a = ci.attrs[x.attr]
                return a[0] if isinstance(a, tuple) else a
            return x

        def big(x):
            x = val(x)
            return isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool) and abs(x.value) >= top

        for n in ast.walk(fi.node):
            at = []
            if isinstance(n, ast.Compare) and any(_len(s, lens) for s in [n.left, *n.comparators]):
                at = [n.left, *n.comparators]
            elif isinstance(n, ast.Slice):
                at = [n.lower, n.upper, n.step]
            elif isinstance(n, ast.keyword) and n.arg == "maxlen":
                at = [n.value]
            at = [x for x in at if x is not None]
            if at:
                yield fi, n, [x for x in at if big(x)], f"{fi.mod.path}:{getattr(n, 'lineno', at[0].lineno)} {fi.qual}"


def _len(e, lens):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" or isinstance(x, ast.Name) and x.id in lens for x in ast.walk(e))


def check_sizes(rep, rule, quals, top):
    for fi, n, bad, where in size_tests(rep.ix, quals, top):
        rep.ob(rule, f"any number: {fi.node.name}:{type(n).__name__}", not bad, f"the behaviour changes at a number of elements beyond the {top - 1} analysed", where)
