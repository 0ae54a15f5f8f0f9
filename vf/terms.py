"""Hash-consed terms of the value-flow graph."""

class T:
    __slots__ = ("op", "args", "_h", "uid", "__weakref__")
    _tab = {}
    _n = 0

    def __new__(cls, op, *args):
        if len(args) > 2 and op in ("add", "mul"):
            args = (cls(op, *args[:-1]), args[-1])
        key = (op, args, tuple(type(a) if not isinstance(a, T) else None for a in args))
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t._h = hash(key)
            T._n += 1
            t.uid = T._n
            cls._tab[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def const(v):
    return T("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def var(name):
    return T("var", name)


def isconst(t, v=...):
    if not isinstance(t, T) or t.op != "const":
        return False
    if v is ...:
        return True
    return type(t.args[0]) is type(v) and t.args[0] == v


_CMPSYM = {"lt": "<", "le": "<=", "eq": "==", "is": "is", "in": "in"}
_BIN = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "mod": "%", "floordiv": "//", "matmul": "@"}


def show(t, depth=0, limit=14):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1, limit) for x in t) + ")"
        return repr(t)
    if depth > limit:
        return "…"
    s = lambda x: show(x, depth + 1, limit)
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0])
    if o == "var":
        return str(a[0])
    if o == "attr":
        return f"{s(a[0])}.{a[1]}" + (f"'" if len(a) > 2 and a[2] is not None else "")
    if o == "item":
        return f"{s(a[0])}[{s(a[1])}]" + ("'" if len(a) > 2 and a[2] is not None else "")
    if o in _BIN:
        return f"({s(a[0])} {_BIN[o]} {s(a[1])})"
    if o == "neg":
        return f"-{s(a[0])}"
    if o == "cmp":
        return f"({s(a[1])} {_CMPSYM[a[0]]} {s(a[2])})"
    if o == "not":
        return f"not {s(a[0])}"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(s(x) for x in a) + ")"
    if o == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o == "fn":
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    if o == "call":
        kw = ", ".join(f"{k}={s(v)}" for k, v in a[2])
        return f"{s(a[0]) if isinstance(a[0], T) else a[0]}({', '.join([s(x) for x in a[1]] + ([kw] if kw else []))})"
    if o == "mcall":
        kw = ", ".join(f"{k}={s(v)}" for k, v in a[3])
        return f"{s(a[0])}.{a[1]}({', '.join([s(x) for x in a[2]] + ([kw] if kw else []))})"
    if o in ("tuple", "list", "set", "arr"):
        return {"tuple": "(%s)", "list": "[%s]", "set": "{%s}", "arr": "arr[%s]"}[o] % ", ".join(s(x) for x in a)
    if o == "dict":
        return "{" + ", ".join(f"{s(k)}: {s(v)}" for k, v in a) + "}"
    if o == "rec":
        return f"{a[0].split('.')[-1]}({', '.join(f'{k}={s(v)}' for k, v in a[1])})"
    if o == "elem":
        return f"each{a[1]}⟨{s(a[0])}⟩"
    if o == "comp":
        return f"{a[0]}⟨{s(a[4])} for each{a[1]} in {s(a[2])}" + (f" if {s(a[3])}" if a[3] is not TRUE else "") + "⟩"
    if o in ("cls", "func", "ext", "mod"):
        return str(a[0]).split(".")[-1] if o != "ext" else str(a[0])
    return f"{o}({', '.join(s(x) for x in a)})"


def subterms(t, seen=None):
    """All distinct subterms (pre-order)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def rebuild(t, f, memo=None):
    """Bottom-up rewriting: f(term with rewritten args) -> term."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, T):
            if x in memo:
                return memo[x]
            args = tuple(go(a) for a in x.args)
            y = x if all(p is q for p, q in zip(args, x.args)) else T(x.op, *args)
            y = f(y)
            memo[x] = y
            return y
        if isinstance(x, tuple):
            r = tuple(go(a) for a in x)
            return x if all(p is q for p, q in zip(r, x)) else r
        return x

    return go(t)


def subst(t, mp):
    return rebuild_td(t, lambda x: mp.get(x))


def rebuild_td(t, f, memo=None):
    """Top-down: f(x) returns a replacement or None to descend."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, T):
            if x in memo:
                return memo[x]
            r = f(x)
            if r is None:
                args = tuple(go(a) for a in x.args)
                r = x if all(p is q for p, q in zip(args, x.args)) else mk(x.op, args)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            r = tuple(go(a) for a in x)
            return x if all(p is q for p, q in zip(r, x)) else r
        return x

    return go(t)


def mk(op, args):
    if op == "ite":
        return ite(*args)
    if op == "and":
        return land(*args)
    if op == "or":
        return lor(*args)
    if op == "not":
        return lnot(args[0])
    return T(op, *args)


# ---- boolean constructors -------------------------------------------------
def lnot(a):
    if isconst(a):
        return const(not a.args[0])
    if a.op == "not":
        return a.args[0]
    return T("not", a)


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    return out


def truthy_const(t):
    """None if unknown, else bool."""
    if t.op == "const":
        return bool(t.args[0])
    return None


def land(*xs):
    out = []
    for x in _flat("and", xs):
        k = truthy_const(x)
        if k is False:
            return FALSE
        if k is True:
            continue
        if lnot(x) in out:
            return FALSE
        out.append(x)
    # absorb / resolve: (not a or b) with a present -> b
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(out):
            if x.op == "or":
                others = out[:i] + out[i + 1:]
                if any(y in others for y in x.args):
                    out = others
                    changed = True
                    break
                keep = [y for y in x.args if not (lnot(y) in others or (y.op == "and" and any(lnot(z) in others for z in y.args)))]
                if len(keep) < len(x.args):
                    r = lor(*keep)
                    return land(*(out[:i] + [r] + out[i + 1:]))
            elif x.op == "not" and x.args[0].op == "and":
                others = out[:i] + out[i + 1:]
                keep = [y for y in x.args[0].args if y not in others]
                if len(keep) < len(x.args[0].args):
                    r = lnot(land(*keep))
                    return land(*(out[:i] + [r] + out[i + 1:]))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *out)


def lor(*xs):
    out = []
    for x in _flat("or", xs):
        k = truthy_const(x)
        if k is True:
            return TRUE
        if k is False:
            continue
        if lnot(x) in out:
            return TRUE
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # factor common conjuncts: (p&c) or (p&!c) -> p
    sets = [list(x.args) if x.op == "and" else [x] for x in out]
    common = [y for y in sets[0] if all(y in s for s in sets[1:])]
    if common:
        rests = [land(*[y for y in s if y not in common]) for s in sets]
        return land(*common, lor(*rests))
    # (c & x) or !c -> x or !c
    for i, x in enumerate(out):
        if x.op == "and":
            others = out[:i] + out[i + 1:]
            keep = [y for y in x.args if lnot(y) not in others]
            if len(keep) < len(x.args):
                return lor(*(out[:i] + [land(*keep)] + out[i + 1:]))
    return T("or", *out)


def conjuncts(t):
    if t is TRUE:
        return []
    return list(t.args) if t.op == "and" else [t]


def ite(c, a, b):
    k = truthy_const(c)
    if k is True:
        return a
    if k is False:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return asbool(c)
    if a is FALSE and b is TRUE:
        return lnot(c)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and _isbool(b):
        return lor(c, b)
    if b is FALSE and _isbool(a):
        return land(c, a)
    if a is FALSE and _isbool(b):
        return land(lnot(c), b)
    if b is TRUE and _isbool(a):
        return lor(lnot(c), a)
    return T("ite", c, a, b)


def _isbool(t):
    return t.op in ("cmp", "and", "or", "not", "any", "raised") or (t.op == "const" and isinstance(t.args[0], bool)) or (
        t.op == "fn" and t.args[0] in ("isinstance", "issubclass", "bool", "all", "any"))


def asbool(c):
    return c


class Outcome:
    __slots__ = ("kind", "value", "st", "line")

    def __init__(self, kind, value, st, line=0):
        self.kind, self.value, self.st, self.line = kind, value, st, line
