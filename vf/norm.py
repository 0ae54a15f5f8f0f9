"""Comparison of value-flow terms: arithmetic normal form, guarded case analysis,
and a polyhedral domain over monomials that prunes impossible cases."""
import math
from fractions import Fraction
from .terms import T, const, isconst, land, lnot, show, NONE, TRUE, FALSE
from .poly import R, ONEM, pmul, padd, pconst, mmul, lead, mkey, showp, of_term, showt

NUMOPS = {"add", "sub", "mul", "div", "neg", "pow"}


class NeedSplit(Exception):
    def __init__(self, kind, key, parts):
        self.kind, self.key, self.parts = kind, key, parts


class TooManyCases(Exception):
    pass


class Undecided(Exception):
    pass


class Ctx:
    """one case: signs of polynomials, truth of boolean atoms."""

    def __init__(self):
        self.signs = {}
        self.bools = {}
        self.ineqs = []  # (poly-as-dict, strict): poly < 0 / <= 0
        self.log = []

    def fork(self):
        c = Ctx()
        c.signs = dict(self.signs)
        c.bools = dict(self.bools)
        c.ineqs = list(self.ineqs)
        c.log = list(self.log)
        return c


def feasible(ineqs, limit=220):
    """Fourier-Motzkin over monomials as unknowns. False only if certainly empty."""
    rows = []
    for p, strict in ineqs:
        k = p.get(ONEM, Fraction(0))
        q = {m: c for m, c in p.items() if m is not ONEM and m != ONEM}
        rows.append((q, k, strict))
    while True:
        out = []
        for q, k, s in rows:
            if not q:
                if k > 0 or (s and k == 0):
                    return False
            else:
                out.append((q, k, s))
        rows = out
        if not rows:
            return True
        cnt = {}
        for q, k, s in rows:
            for m, c in q.items():
                a = cnt.setdefault(m, [0, 0])
                a[0 if c > 0 else 1] += 1
        m = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1])
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        neg = [r for r in rows if r[0].get(m, 0) < 0]
        rest = [r for r in rows if m not in r[0]]
        if len(rest) + len(pos) * len(neg) > limit:
            return True
        seen = set()
        for q1, k1, s1 in pos:
            for q2, k2, s2 in neg:
                a, b = -q2[m], q1[m]
                q = {}
                for mm, c in q1.items():
                    q[mm] = c * a
                for mm, c in q2.items():
                    v = q.get(mm, 0) + c * b
                    if v:
                        q[mm] = v
                    else:
                        q.pop(mm, None)
                q.pop(m, None)
                kk = k1 * a + k2 * b
                key = (frozenset(q.items()), kk, s1 or s2)
                if key not in seen:
                    seen.add(key)
                    rest.append((q, kk, s1 or s2))
        rows = rest


class Norm:
    def __init__(self, assume=(), atom=None, maxcases=20000, angle_mod=False):
        self.assume = list(assume)
        self.atom_hook = atom
        self.maxcases = maxcases
        self.ncases = 0
        self._base = None

    # ---- numeric ---------------------------------------------------------
    def num(self, t, cx):
        key = t
        memo = cx.__dict__.setdefault("memo", {})
        if key in memo:
            return memo[key]
        r = self.num1(t, cx)
        memo[key] = r
        return r

    def num1(self, t, cx):
        o, a = t.op, t.args
        if o == "const":
            v = a[0]
            if isinstance(v, bool):
                return R.of(int(v))
            if isinstance(v, int):
                return R.of(v)
            if isinstance(v, Fraction):
                return R.of(v)
            if isinstance(v, float):
                if math.isinf(v) or math.isnan(v):
                    return R.atom(t)
                return R.of(Fraction(str(v)))
            return R.atom(t)
        if o == "rat":
            return of_term(t)
        if o == "add":
            return self.num(a[0], cx) + self.num(a[1], cx)
        if o == "sub":
            return self.num(a[0], cx) - self.num(a[1], cx)
        if o == "mul":
            return self.num(a[0], cx) * self.num(a[1], cx)
        if o == "div":
            d = self.num(a[1], cx)
            if d.zero():
                return R.atom(T("divzero", self.num(a[0], cx).term()))
            return self.num(a[0], cx) / d
        if o == "neg":
            return self.num(a[0], cx).scale(-1)
        if o == "pow":
            return self.power(self.num(a[0], cx), self.num(a[1], cx), cx)
        if o == "ite":
            return self.num(a[1] if self.truth(a[0], cx) else a[2], cx)
        if o == "fn":
            return self.fn(t, cx)
        if o in ("cmp", "not", "and", "or"):
            return R.of(int(self.truth(t, cx)))
        c = self.canon(t, cx)
        return of_term(c)

    def power(self, b, e, cx):
        c = e.const()
        s = b.single()
        if c is not None and c.denominator == 1 and 2 <= c <= 12 and s is not None and s.op == "sqrt":
            r = of_term(s.args[0])
            return self.power(r, R.of(c / 2), cx) if c % 2 == 0 else self.power(r, R.of((c - 1) / 2), cx) * b
        if c is not None and c.denominator == 1 and abs(c) <= 12:
            r = R.of(1)
            for _ in range(abs(int(c))):
                r = r * b
            if c < 0:
                r = R.of(1) / r if not r.zero() else R.atom(T("divzero", const(1)))
            return r
        if c == Fraction(1, 2):
            return self.sqrt(b, cx)
        if c is not None and c.denominator == 2 and c > 0:
            return self.power(b, R.of(c - Fraction(1, 2)), cx) * self.sqrt(b, cx)
        return R.atom(T("pow", b.term(), e.term()))

    def sqrt(self, b, cx=None):
        c = b.const()
        if c is not None and c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return R.of(Fraction(n, d))
        if cx is not None and b.d == {ONEM: 1} and len(b.n) == 1:
            (m, k), = b.n.items()
            if k > 0 and m and all(e % 2 == 0 for _, e in m):
                root = R.of(1)
                for a, e in m:
                    sg = self.atomsign(a, cx)
                    if sg is None:
                        break
                    root = root * self.power(R.atom(a), R.of(e // 2), cx).scale(sg if (e // 2) % 2 else 1)
                else:
                    return root * self.sqrt(R.of(k))
        return R.atom(T("sqrt", b.rat()))

    def trig(self, name, x):
        """cos/sin of a rational term."""
        if x.d != {ONEM: 1}:
            if x.n and (lambda c: c < 0)(x.n[lead(x.n)]):
                r = self.trig(name, x.scale(-1))
                return r if name == "cos" else r.scale(-1)
            return R.atom(T(name, x.term()))
        parts = sorted(x.n.items(), key=lambda z: mkey(z[0]))
        if not parts:
            return R.of(1 if name == "cos" else 0)
        if len(parts) > 6:
            return R.atom(T(name, x.term()))
        co, si = R.of(1), R.of(0)
        for m, c in parts:
            c1, s1 = self.trig1(m, c)
            co, si = co * c1 - si * s1, si * c1 + co * s1
        return co if name == "cos" else si

    def trig1(self, m, c):
        PI = T("fn", "pi")
        if m == ((PI, 1),) and (2 * c).denominator == 1:
            k = int(2 * c) % 4
            return R.of([1, 0, -1, 0][k]), R.of([0, 1, 0, -1][k])
        sgn = -1 if c < 0 else 1
        c = abs(c)
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 1 and c <= 4:
            a = m[0][0]
            if a.op == "fn" and a.args[0] == "atan2":
                y, x = of_term(a.args[1]), of_term(a.args[2])
                h = self.sqrt(x * x + y * y)
                c1, s1 = x / h, y / h
            elif a.op == "fn" and a.args[0] == "atan":
                y = of_term(a.args[1])
                h = self.sqrt(R.of(1) + y * y)
                c1, s1 = R.of(1) / h, y / h
            else:
                c1, s1 = R.atom(T("cos", a)), R.atom(T("sin", a))
            co, si = c1, s1
            for _ in range(int(c) - 1):
                co, si = co * c1 - si * s1, si * c1 + co * s1
        else:
            at = R({m: c}).term()
            co, si = R.atom(T("cos", at)), R.atom(T("sin", at))
        return co, (si if sgn > 0 else si.scale(-1))

    def fn(self, t, cx):
        n, a = t.args[0], t.args[1:]
        if n in ("cos", "sin"):
            return self.trig(n, self.num(a[0], cx))
        if n == "tan":
            x = self.num(a[0], cx)
            s = x.single()
            if s is not None and s.op == "fn" and s.args[0] == "atan":
                return of_term(s.args[1])
            return self.trig("sin", x) / self.trig("cos", x)
        if n == "sqrt":
            return self.sqrt(self.num(a[0], cx), cx)
        if n == "hypot":
            x, y = self.num(a[0], cx), self.num(a[1], cx)
            return self.sqrt(x * x + y * y, cx)
        if n == "square":
            x = self.num(a[0], cx)
            return x * x
        if n == "norm" and len(a) == 1:
            c = self.canon(a[0], cx)
            if c.op in ("arr", "tuple", "list") and 1 <= len(c.args) <= 4 and not any(x.op in ("arr", "tuple", "list", "spread", "star") for x in c.args):
                r = R.of(0)
                for x in c.args:
                    x = self.num(x, cx)
                    r = r + x * x
                return self.sqrt(r, cx)
        if n in ("min", "max") and len(a) == 2:
            lt = T("cmp", "lt", a[1], a[0]) if n == "min" else T("cmp", "lt", a[0], a[1])
            return self.num(a[1] if self.truth(lt, cx) else a[0], cx)
        if n == "abs":
            return self.num(a[0], cx).scale(-1 if self.truth(T("cmp", "lt", a[0], const(0)), cx) else 1)
        if n == "sign":
            s = self.sign3(self.num(a[0], cx), cx, {-1, 0, 1})
            return R.of(next(iter(s)))
        if n in ("float", "int_exact", "asfloat"):
            return self.num(a[0], cx)
        if n == "radians":
            return self.num(a[0], cx) * R.atom(T("fn", "pi")) / R.of(180)
        if n == "degrees":
            return self.num(a[0], cx) * R.of(180) / R.atom(T("fn", "pi"))
        if n in ("atan", "asin"):   # odd
            x = self.num(a[0], cx)
            if not x.n:
                return R.of(0)
            if x.n[lead(x.n)] < 0:
                return R.atom(T("fn", n, x.scale(-1).term())).scale(-1)
            return R.atom(T("fn", n, x.term()))
        if n in ("atan2", "acos", "exp", "log"):
            xs = [self.num(x, cx) for x in a]
            if n == "atan2" and not xs[0].n and (xs[1].const() or 0) > 0:
                return R.of(0)
            return R.atom(T("fn", n, *[x.term() for x in xs]))
        c = self.canon(t, cx)
        return of_term(c)

    # ---- signs -----------------------------------------------------------
    def signpoly(self, r, cx):
        """polynomial with the sign of r, canonical up to +-."""
        p = r.n
        sg = 1
        if r.d != {ONEM: 1}:
            q, s = self.signpoly(R(r.d), cx) if r.n else (None, 1)
            k = cx.signs.get(frozenset(q.items())) if q else None
            if k is not None and len(k[1]) == 1 and 0 not in k[1]:
                sg = s * next(iter(k[1]))
            else:
                p = pmul(r.n, r.d)
        if not p:
            return {}, 1
        # divide out monomial factors of known sign
        com = None
        for m in p:
            dm = dict(m)
            com = dm if com is None else {a: min(e, dm[a]) for a, e in com.items() if a in dm}
            if not com:
                break
        for a, e in (com or {}).items():
            s = self.atomsign(a, cx)
            if s is None:
                if e >= 3:
                    k = e - 1 if e % 2 else e - 2
                    k -= k % 2
                    p = {mmul(m, ((a, -k),)): c for m, c in p.items()}
                continue
            p = {mmul(m, ((a, -e),)): c for m, c in p.items()}
            if s < 0 and e % 2:
                sg = -sg
        c = p[lead(p)]
        if c < 0:
            sg = -sg
        p = {m: v / abs(c) for m, v in p.items()}
        if c < 0:
            p = {m: -v for m, v in p.items()}
        return p, sg

    def atomsign(self, a, cx):
        k = frozenset({((a, 1),): Fraction(1)}.items())
        s = cx.signs.get(k)
        if s is not None and len(s[1]) == 1 and 0 not in s[1]:
            return next(iter(s[1]))
        return None

    def sign3(self, r, cx, want):
        """known sign set of r if it decides membership in `want`; else split."""
        c = r.const()
        if c is not None:
            return {(c > 0) - (c < 0)}
        p, sg = self.signpoly(r, cx)
        if not p:
            return {0}
        if len(p) == 1 and ONEM in p:
            return {sg}
        k = frozenset(p.items())
        if len(p) == 1 and k not in cx.signs:
            (m, _), = p.items()
            if len(m) > 1:      # the sign of a product is that of its factors
                for a, e in m:
                    ka = frozenset({((a, 1),): Fraction(1)}.items())
                    if self.atomsign(a, cx) is None and self.numeric_atom(a):
                        pa = {((a, 1),): Fraction(1)}
                        c2 = cx.signs.get(ka, (pa, frozenset((-1, 0, 1))))[1]
                        if len(c2) > 1:
                            raise NeedSplit("sign", ka, (pa, [frozenset((x,)) for x in sorted(c2)]))
                        if c2 == frozenset((0,)):
                            return {0}
        cur = cx.signs.get(k, (p, frozenset((-1, 0, 1))))[1]
        w = {sg * x for x in want}
        if len(want) == 3:
            parts = [frozenset((s,)) for s in cur]
            if len(parts) == 1:
                return {sg * x for x in cur}
            raise NeedSplit("sign", k, (p, parts))
        inn, out = cur & w, cur - w
        if inn and out:
            raise NeedSplit("sign", k, (p, [frozenset(inn), frozenset(out)]))
        return {sg * x for x in cur}

    def numeric_atom(self, a):
        return a.op in ("var", "attr", "item", "cos", "sin", "sqrt", "fn", "call", "mcall", "sum", "fold", "elem")

    def add_sign(self, cx, k, p, signs):
        """returns False if the case is impossible"""
        cx.signs[k] = (p, signs)
        neg = {m: -c for m, c in p.items()}
        new = {
            frozenset((-1,)): [(p, True)],
            frozenset((1,)): [(neg, True)],
            frozenset((0,)): [(p, False), (neg, False)],
            frozenset((-1, 0)): [(p, False)],
            frozenset((0, 1)): [(neg, False)],
        }.get(signs, [])
        cx.ineqs.extend(new)
        cx.__dict__.pop("memo", None)
        cx.__dict__.pop("cmemo", None)
        if len(p) == 1 and signs != frozenset((-1, 1)):
            pass
        return feasible(cx.ineqs + self.square_facts(cx))

    def square_facts(self, cx):
        """even monomials are >= 0; abs/sqrt atoms >= 0; |cos|,|sin|<=1"""
        out = []
        seen = set()
        for p, _ in cx.ineqs:
            for m in p:
                if m in seen or m == ONEM:
                    continue
                seen.add(m)
                if all(e % 2 == 0 or a.op == "sqrt" or (a.op == "fn" and a.args[0] in ("norm", "exp", "pi")) for a, e in m):
                    out.append(({m: Fraction(-1)}, False))
                if len(m) == 1 and m[0][0].op in ("cos", "sin"):
                    out.append(({m: Fraction(1), ONEM: Fraction(-1)}, False))
                    out.append(({m: Fraction(-1), ONEM: Fraction(-1)}, False))
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fn" and m[0][0].args[0] == "pi":
                    out.append(({m: Fraction(-1), ONEM: Fraction(3)}, True))
                    out.append(({m: Fraction(1), ONEM: Fraction(-4)}, True))
        return out

    # ---- booleans ---------------------------------------------------------
    def truth(self, t, cx):
        o, a = t.op, t.args
        if o == "const":
            return bool(a[0])
        if o == "not":
            return not self.truth(a[0], cx)
        if o in ("and", "or"):
            stop = o == "or"
            need = None
            for x in a:
                try:
                    if self.truth(x, cx) == stop:
                        return stop
                except NeedSplit as e:
                    need = need or e
            if need:
                raise need
            return not stop
        if o == "ite":
            return self.truth(a[1] if self.truth(a[0], cx) else a[2], cx)
        if o == "cmp" and a[0] == "lt":
            x, y = self.num(a[1], cx), self.num(a[2], cx)
            inf = lambda r: (lambda s: s is not None and s.op == "const" and isinstance(s.args[0], float) and math.isinf(s.args[0]) and s.args[0])(r.single())
            if inf(x) or inf(y):
                if inf(x) and inf(y):
                    return inf(x) < inf(y)
                return bool(inf(y) and inf(y) > 0 and not inf(x)) or bool(inf(x) and inf(x) < 0)
            return self.sign3(x - y, cx, {-1}) == {-1}
        if o == "cmp" and a[0] == "eq":
            x, y = self.canon(a[1], cx), self.canon(a[2], cx)
            if x is y:
                return True
            if x.op == "const" and y.op == "const":
                return x.args[0] == y.args[0]
            if x.op in ("tuple", "list") and y.op == x.op and len(x.args) == len(y.args):
                return all(self.truth(T("cmp", "eq", p, q), cx) for p, q in zip(x.args, y.args))
            if self.nonnum(x) or self.nonnum(y):
                return self.eqatom(x, y, cx)
            if any(z.op == "const" and isinstance(z.args[0], float) for z in (x, y)):  # inf
                return self.eqatom(x, y, cx)
            return self.sign3(of_term(x) - of_term(y), cx, {0}) == {0}
        if o == "cmp" and a[0] == "is":
            x, y = self.canon(a[1], cx), self.canon(a[2], cx)
            if x is y:
                return True
            if x.op == "const" and y.op == "const":
                return x.args[0] is y.args[0]
            k = self.isdef(x, y)
            if k is not None:
                return k
            return self.boolatom(T("cmp", "is", *sorted((x, y), key=lambda z: z.uid)), cx)
        if o == "fn" and a[0] == "bool":
            return self.truth(a[1], cx)
        if o in NUMOPS or (o == "fn" and a[0] in ("min", "max", "abs", "sqrt", "sign")):
            return self.sign3(self.num(t, cx), cx, {0}) != {0}
        return self.boolatom(self.canon(t, cx), cx)

    @staticmethod
    def nonnum(x):
        return (x.op == "const" and (x.args[0] is None or isinstance(x.args[0], (str, bool)))) or x.op in (
            "cls", "func", "rec", "tuple", "list", "enum", "str") or (x.op == "attr" and x.args[0].op == "cls")

    @staticmethod
    def isdef(x, y):
        for p, q in ((x, y), (y, x)):
            if p is NONE and q.op in ("rec", "tuple", "list", "dict", "arr", "comp", "rat", "cos", "sin", "cls", "func", "set", "ref", "closure", "bound"):
                return False
            if p is NONE and q.op == "const":
                return q is NONE
            if p is NONE and q.op == "fn" and q.args[0] in ("SE2", "deepcopy", "abs", "norm"):
                return False
        return None

    def eqatom(self, x, y, cx):
        c1, c2 = self.distinct(x), self.distinct(y)
        if c1 and c2:
            return False
        if c2 or (not c1 and y.uid < x.uid):
            x, y = y, x
        if self.distinct(x):
            for k, v in cx.bools.items():
                if v and k.op == "cmp" and k.args[0] == "eq" and k.args[2] is y and self.distinct(k.args[1]) and k.args[1] is not x:
                    return False
        return self.boolatom(T("cmp", "eq", x, y), cx)

    @staticmethod
    def distinct(x):
        return x.op == "const" or x.op == "cls" or (x.op == "attr" and x.args[0].op == "cls")

    def boolatom(self, t, cx):
        if t.op == "const":
            return bool(t.args[0])
        if t.op in ("rec", "closure", "func", "cls"):
            return True
        if t.op in ("tuple", "list", "dict", "set") and len(t.args) > 0:
            return True
        if t.op in ("tuple", "list", "dict", "set"):
            return False
        if t.op == "rat":
            return self.sign3(of_term(t), cx, {0}) != {0}
        v = cx.bools.get(t)
        if v is None:
            raise NeedSplit("bool", t, None)
        return v

    # ---- canonical structure ------------------------------------------------
    def canon(self, t, cx):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.canon(x, cx) for x in t)
            return t
        memo = cx.__dict__.setdefault("cmemo", {})
        if t in memo:
            return memo[t]
        r = self.canon1(t, cx)
        memo[t] = r
        return r

    def canon1(self, t, cx):
        o, a = t.op, t.args
        if self.atom_hook is not None:
            h = self.atom_hook(t)
            if h is not None and h is not t:
                return self.canon(h, cx)
        if o == "const":
            v = a[0]
            if isinstance(v, (float, int)) and not isinstance(v, bool):
                return self.num1(t, cx).term()
            return t
        if o in ("var", "rat", "sqrt", "ext", "cls", "func", "mod"):
            return t
        if o in NUMOPS:
            return self.num(t, cx).term()
        if o == "ite":
            return self.canon(a[1] if self.truth(a[0], cx) else a[2], cx)
        if o == "fn" and a[0] in ("cos", "sin", "tan", "sqrt", "hypot", "min", "max", "abs", "sign", "atan2", "atan",
                                  "radians", "degrees", "asin", "acos", "exp", "log", "square", "float") and (a[0] not in ("min", "max") or len(a) == 3):
            return self.num(t, cx).term()
        if o in ("and", "or", "not") or (o == "cmp" and a[0] in ("lt", "eq", "is")):
            return const(self.truth(t, cx)) if not self.bound(t) else self.canon_under(t, cx)
        if o in ("comp", "any", "fold", "first", "sum"):
            return self.canon_under(t, cx)
        args = tuple(self.canon(x, cx) for x in a)
        if o == "fn" and a[0] == "norm" and len(a) == 2 and args[1].op in ("arr", "tuple", "list"):
            return self.fn(T("fn", "norm", args[1]), cx).term()
        return t if all(p is q for p, q in zip(args, a)) else T(o, *args)

    def bound(self, t):
        """mentions a loop-bound element"""
        from .terms import subterms
        return any(x.op in ("elem", "index", "acc") for x in subterms(t))

    def canon_under(self, t, cx):
        """inside a binder: no splitting; structural canonicalisation only"""
        o, a = t.op, t.args
        out = []
        for x in a:
            if isinstance(x, T):
                if x.op in ("and", "or", "not", "cmp", "ite", "comp", "any", "fold", "first", "sum") and (self.bound(x) or o in ("and", "or", "not", "cmp", "ite")):
                    out.append(self.canon_under(x, cx))
                else:
                    try:
                        out.append(self.canon(x, cx))
                    except NeedSplit as e:
                        if self.bound(x):
                            out.append(self.canon_under(x, cx))
                        else:
                            raise
            else:
                out.append(self.canon(x, cx) if isinstance(x, tuple) else x)
        if o in ("and", "or"):
            out.sort(key=lambda z: z.uid)
        if o == "cmp" and a[0] in ("eq", "is"):
            out[1:] = sorted(out[1:], key=lambda z: z.uid)
        return T(o, *out)

    # ---- driver --------------------------------------------------------------
    def base(self):
        if self._base is None:
            cxs = [Ctx()]
            for f in self.assume:
                nxt = []
                for cx in cxs:
                    for leaf, v in self.cases(lambda c, f=f: self.truth(f, c), cx):
                        if v:
                            nxt.append(leaf)
                cxs = nxt
            if not cxs:
                raise Undecided("contradictory assumptions")
            self._base = cxs
        return self._base

    def cases(self, f, cx):
        stack = [cx.fork()]
        n = 0
        while stack:
            c = stack.pop()
            try:
                v = f(c)
            except NeedSplit as e:
                n += 1
                if n > self.maxcases:
                    raise TooManyCases()
                if e.kind == "bool":
                    for val in (True, False):
                        d = c.fork()
                        d.bools[e.key] = val
                        d.log.append((show(e.key), val))
                        stack.append(d)
                else:
                    p, parts = e.parts
                    for s in parts:
                        d = c.fork()
                        ok = self.add_sign(d, e.key, p, s)
                        if ok:
                            d.log.append((showp(p), {frozenset((-1,)): "<0", frozenset((1,)): ">0", frozenset((0,)): "=0", frozenset((-1, 0)): "<=0",
                                                    frozenset((0, 1)): ">=0", frozenset((-1, 1)): "!=0"}.get(s, str(sorted(s)))))
                            stack.append(d)
                continue
            self.ncases += 1
            yield c, v

    def each(self, f):
        for b in self.base():
            yield from self.cases(f, b)

    def equalities(self, cx):
        return [p for p, s in cx.signs.values() if s == frozenset((0,))]

    def elim(self, r, cx):
        """reduce r.n modulo known equalities p==0 (linear in some atom with constant coefficient)"""
        p = dict(r.n)
        todo = [dict(q) for q in self.equalities(cx)]
        for _ in range(len(todo)):
            q = todo.pop(0)
            tgt = None
            for m in sorted(q, key=mkey, reverse=True):
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    if sum(1 for mm in q if any(x is a for x, _ in mm)) == 1:
                        tgt = (m, a)
                        break
            if tgt is None:
                continue
            m, a = tgt
            val = {k: -v / q[m] for k, v in q.items() if k != m}

            def sub(pp):
                out = {}
                for mm, c in pp.items():
                    e = dict(mm).get(a, 0)
                    if e:
                        rest = tuple(x for x in mm if x[0] is not a)
                        v = pconst(1)
                        for _ in range(e):
                            v = pmul(v, val)
                        out = padd(out, pmul({rest: c}, v))
                    else:
                        out = padd(out, {mm: c})
                return out
            p = sub(p)
            todo = [sub(x) for x in todo]
        return p

    def same(self, a, b, cx):
        """None if equal else (path, left, right)"""
        x, y = self.canon(a, cx), self.canon(b, cx)
        return self.same_c(x, y, cx)

    def same_c(self, x, y, cx, path=""):
        if x is y:
            return None
        if not isinstance(x, T) or not isinstance(y, T):
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                for i, (p, q) in enumerate(zip(x, y)):
                    d = self.same_c(p, q, cx, path + f"[{i}]")
                    if d:
                        return d
                return None
            return None if x == y else (path, x, y)
        num = lambda z: z.op in ("rat",) or (z.op == "const" and isinstance(z.args[0], (int, float, Fraction)) and not isinstance(z.args[0], bool))
        if num(x) or num(y) or (x.op in ("var", "attr", "item", "cos", "sin", "sqrt", "fn") and y.op in ("var", "attr", "item", "cos", "sin", "sqrt", "fn") and not (x.op == y.op == "fn" and x.args[0] == y.args[0])):
            if not (self.nonnum(x) or self.nonnum(y)):
                try:
                    d = of_term(x) - of_term(y)
                    if d.zero() or not self.elim(d, cx):
                        return None
                except (TypeError, ValueError, OverflowError):
                    pass
            return (path, x, y)
        if x.op == y.op and len(x.args) == len(y.args):
            for i, (p, q) in enumerate(zip(x.args, y.args)):
                d = self.same_c(p, q, cx, path + (f".{i}" if x.op not in ("tuple", "list", "arr") else f"[{i}]"))
                if d:
                    return d
            return None
        return (path, x, y)

    def diff(self, a, b, when=TRUE):
        """None if a == b in every case (where `when` holds), else a description."""
        def f(cx):
            if not self.truth(when, cx):
                return None
            d = self.same(a, b, cx)
            return d
        for cx, v in self.each(f):
            if v is not None:
                p, x, y = v
                return {"case": cx.log, "at": p, "got": showt(x) if isinstance(x, T) else show(x), "expected": showt(y) if isinstance(y, T) else show(y)}
        return None

    def fails(self, cond, when=TRUE):
        """None if `cond` holds in every case, else description of a case where it does not."""
        def f(cx):
            return (not self.truth(when, cx)) or self.truth(cond, cx)
        for cx, v in self.each(f):
            if not v:
                return {"case": cx.log}
        return None

    def equiv(self, a, b, when=TRUE):
        def f(cx):
            return (not self.truth(when, cx)) or self.truth(a, cx) == self.truth(b, cx)
        for cx, v in self.each(f):
            if not v:
                return {"case": cx.log}
        return None

