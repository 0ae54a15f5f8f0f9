"""An interpreter for arguments known to lie in given ranges: comparisons, rounding and wrapping that the ranges settle are settled."""
from .absint import Interp
from .norm import Norm, TooManyCases, Undecided
from .terms import *

PI = T("fn", "pi")
LE = lambda a, b: lnot(T("cmp", "lt", b, a))
LT = lambda a, b: T("cmp", "lt", a, b)
NUMERIC = {"const", "var", "add", "sub", "mul", "div", "neg", "pow", "fn", "attr", "item", "mod", "floordiv"}


def is_int(t):
    return t.op == "const" and not isinstance(t.args[0], bool) and isinstance(t.args[0], (int, float)) and float(t.args[0]).is_integer()


def rounded(t):
    """(x, True) if t is the floor of x, (x, False) if its integer part"""
    if t.op == "fn" and t.args[0] == "int" and len(t.args) == 2:
        x = t.args[1]
        if x.op == "fn" and x.args[0] == "floor":
            return x.args[1], True
        return x, False
    if t.op == "fn" and t.args[0] == "floor" and len(t.args) == 2:
        return t.args[1], True
    if t.op == "floordiv" and t.args[1] is ONE:
        return t.args[0], True
    return None, None


class Ranged(Interp):
    def __init__(self, ix, assume, opaque=(), overrides=None, span=range(-4, 8)):
        o = {}
        for q in ("math.floor", "numpy.floor", "builtins.int", "math.trunc", "numpy.trunc", "math.ceil", "numpy.ceil", "math.isclose", "numpy.isclose",
                  "math.atan2", "numpy.arctan2", "builtins.divmod", "math.fmod", "numpy.mod", "numpy.remainder", "bisect.bisect", "bisect.bisect_right",
                  "bisect.bisect_left", "numpy.searchsorted", "math.modf"):
            o[q] = self.hook(q.split(".")[-1], q)
        o.update(overrides or {})
        super().__init__(ix, opaque=opaque, overrides=o)
        self.N = Norm(assume=list(assume))
        self.known = {}
        self.angles = []
        self.span = span

    def settled(self, c):
        """the condition's value if the ranges settle it."""
        r = self.known.get(c, 0)
        if r == 0:
            try:
                r = TRUE if self.N.fails(c) is None else FALSE if self.N.fails(lnot(c)) is None else None
            except (TooManyCases, Undecided):
                r = None
            self.known[c] = r
        return r

    def compare(self, op, a, b, st):
        r = super().compare(op, a, b, st)
        c = r.args[0] if r.op == "not" else r
        if c.op == "cmp" and c.args[0] in ("lt", "eq") and all(x.op in NUMERIC for x in c.args[1:]):
            s = self.settled(self.unround(c))
            if s is not None:
                return lnot(s) if r.op == "not" else s
        return r

    @staticmethod
    def unround(c):
        """comparisons of rounded values with integers, as comparisons of the values"""
        if c.args[0] != "lt":
            return c
        a, b = c.args[1:]
        x, down = rounded(a)
        if x is not None and is_int(b):
            k = b.args[0]
            return LT(x, b) if down or k > 0 else LE(x, const(k - 1))
        x, down = rounded(b)
        if x is not None and is_int(a):
            k = a.args[0]
            return LE(const(k + 1), x) if down or k >= 0 else LT(const(k), x)
        return c

    def quotient(self, x, m):
        """the integer c with c*m <= x < (c+1)*m, if the ranges settle it."""
        for c in self.span:
            lo, hi = T("mul", const(c), m), T("mul", const(c + 1), m)
            if self.settled(land(LE(lo, x), LT(x, hi))) is TRUE:
                return c
        return None

    def split(self, x, m):
        """cases (condition, c): c is the floor of x/m there; None if the ranges leave too many."""
        c = self.quotient(x, m)
        return c

    def binop(self, opname, a, b, st, node=None):
        k = self.OPS.get(opname, opname)
        if k in ("mod", "floordiv") and a.op in NUMERIC and b.op in NUMERIC and not (a.op == "const" and b.op == "const"):
            c = self.quotient(a, b)
            if c is not None:
                return const(c) if k == "floordiv" else T("sub", a, T("mul", const(c), b)) if c else a
        return super().binop(opname, a, b, st, node)

    def math_call(self, n, args, kwargs, st, node):
        if n == "arctan2" and not kwargs:
            r = self.rounding(n, args, kwargs, st)
            if r is not None:
                return r
        return super().math_call(n, args, kwargs, st, node)

    def hook(self, n, q):
        def f(ip, st, args, kwargs, node):
            r = self.rounding(n, args, kwargs, st)
            if r is not None:
                return r
            ov, self.overrides = self.overrides, {k: v for k, v in self.overrides.items() if k != q}
            try:
                return self.ext_call(q, args, kwargs, st, node)
            finally:
                self.overrides = ov
        return f

    def rounding(self, n, args, kwargs, st):
        a = args[0] if args else None
        if a is None or a.op == "ite":
            return None
        if n in ("floor", "int", "trunc", "modf") and len(args) == 1:
            if a.op == "const" or a.op not in NUMERIC:
                return None
            c = self.quotient(a, ONE)
            if c is None:
                return None
            if n != "floor" and c < 0:
                c += 0 if self.settled(T("cmp", "eq", a, const(c))) is TRUE else 1
            return const(c) if n != "modf" else T("tuple", T("sub", a, const(c)), const(c))
        if n == "ceil" and a.op != "const":
            c = self.quotient(T("neg", a), ONE)
            return const(-c) if c is not None else None
        if n == "isclose":
            kw = dict(kwargs)
            tol = kw.get("abs_tol", kw.get("atol"))
            rel = kw.get("rel_tol", kw.get("rtol"))
            wide = lambda t, lim: t is not None and not (t.op == "const" and isinstance(t.args[0], (int, float)) and t.args[0] <= lim)
            if wide(tol, 1e-6) or wide(rel, 1e-4):
                # a genuine tolerance, not a rounding-proof equality
                return None
            return self.compare("Eq", args[0], args[1], st)
        if n in ("divmod", "mod", "remainder") and len(args) == 2:
            r = self.binop("Mod", args[0], args[1], st)
            return r if n != "divmod" else T("tuple", self.binop("FloorDiv", args[0], args[1], st), r)
        if n in ("atan2", "arctan2") and len(args) == 2:
            s, c = args
            if s.op == "fn" and c.op == "fn" and s.args[0] == "sin" and c.args[0] == "cos" and (s.args[1] is c.args[1] or self.N.diff(s.args[1], c.args[1]) is None):
                return self.wrapped(s.args[1])
            for e in self.angles:
                ce, se = T("fn", "cos", e), T("fn", "sin", e)
                try:
                    if self.N.diff(T("sub", T("mul", s, ce), T("mul", c, se)), ZERO) is None and self.N.diff(T("add", T("mul", c, ce), T("mul", s, se)), ONE) is None:
                        return self.wrapped(e)
                except (TooManyCases, Undecided):
                    pass
        if n in ("bisect", "bisect_right", "bisect_left", "searchsorted") and len(args) >= 2:
            l, x = self.content(args[0], st) or args[0], args[1]
            left = n == "bisect_left" or n == "searchsorted" and dict(kwargs).get("side", args[2] if len(args) > 2 else const("left")) is const("left")
            if l.op in ("list", "tuple", "arr") and len(args) == 2 and not [k for k in dict(kwargs) if k != "side"]:
                k = 0
                for y in l.args:
                    s = self.settled(LT(y, x) if left else LE(y, x))
                    if s is None:
                        return None
                    if s is FALSE:
                        break
                    k += 1
                return const(k)
        return None

    def wrapped(self, x):
        """the angle in [-pi, pi)"""
        c = self.quotient(T("add", x, PI), T("mul", const(2), PI))
        return None if c is None else T("sub", x, T("mul", const(2 * c), PI)) if c else x
