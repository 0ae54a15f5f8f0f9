"""Exact rational functions over value-flow atoms (a normal form for arithmetic)."""
from fractions import Fraction
from .terms import T, const, isconst

ONEM = ()


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pconst(c):
    c = Fraction(c)
    return {ONEM: c} if c else {}


def patom(t):
    return {((t, 1),): Fraction(1)}


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].uid))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * e
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return reduce_(r)


def ppow(a, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, a)
    return r


def _reducible(m):
    for i, (a, e) in enumerate(m):
        if e >= 2 and (a.op == "sin" or a.op == "sqrt" and a.args[0].op == "rat" and a.args[0].args[1] == ((ONEM, Fraction(1)),)):
            return i
    return None


def reduce_(p):
    """sin(x)^2 -> 1-cos(x)^2 ; sqrt(e)^2 -> e (e polynomial)."""
    if all(_reducible(m) is None for m in p):
        return p
    out = {}
    work = list(p.items())
    while work:
        m, c = work.pop()
        i = _reducible(m)
        if i is None:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        a, e = m[i]
        rest = m[:i] + (((a, e - 2),) if e > 2 else ()) + m[i + 1:]
        if a.op == "sin":
            work.append((rest, c))
            work.append((mmul(rest, ((T("cos", a.args[0]), 2),)), -c))
        else:
            for k, v in a.args[0].args[0]:
                work.append((mmul(rest, k), c * v))
    return out


def mkey(m):
    return (sum(e for _, e in m), tuple((-a.uid, e) for a, e in m))


def lead(p):
    return max(p, key=mkey)


class R:
    """num/den"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        d = d if d is not None else pconst(1)
        if not d:
            raise ZeroDivisionError("division by zero in a value-flow term")
        if not n:
            d = pconst(1)
        else:
            # cancel common monomial
            if len(d) >= 1 and (len(d) > 1 or ONEM not in d):
                com = None
                for m in list(n) + list(d):
                    dm = dict(m)
                    com = dm if com is None else {a: min(e, dm[a]) for a, e in com.items() if a in dm}
                    if not com:
                        break
                if com:
                    inv = tuple((a, -e) for a, e in com.items())
                    n = {mmul(m, inv): c for m, c in n.items()}
                    d = {mmul(m, inv): c for m, c in d.items()}
            if len(d) > 1 or ONEM not in d:
                q = pdiv(n, d)
                if q is not None:
                    n, d = q, pconst(1)
                elif len(n) <= len(d):
                    q = pdiv(d, n)
                    if q is not None and q:
                        n, d = pconst(1), q
            c = d[lead(d)]
            if c != 1:
                n = {m: v / c for m, v in n.items()}
                d = {m: v / c for m, v in d.items()}
        self.n, self.d = n, d

    @staticmethod
    def of(c):
        return R(pconst(c))

    @staticmethod
    def atom(t):
        return R(patom(t))

    def __add__(s, o):
        if s.d == o.d:
            return R(padd(s.n, o.n), s.d)
        return R(padd(pmul(s.n, o.d), pmul(o.n, s.d)), pmul(s.d, o.d))

    def __sub__(s, o):
        return s + o.scale(-1)

    def scale(s, k):
        return R({m: c * k for m, c in s.n.items()} if k else {}, s.d)

    def __mul__(s, o):
        return R(pmul(s.n, o.n), pmul(s.d, o.d))

    def __truediv__(s, o):
        return R(pmul(s.n, o.d), pmul(s.d, o.n))

    def const(s):
        if not s.n:
            return Fraction(0)
        if s.d == {ONEM: 1} and len(s.n) == 1 and ONEM in s.n:
            return s.n[ONEM]
        return None

    def zero(s):
        return not s.n

    def single(s):
        """the atom if this is just one atom"""
        if s.d == {ONEM: 1} and len(s.n) == 1:
            (m, c), = s.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def term(s):
        c = s.const()
        if c is not None:
            return const(c)
        a = s.single()
        if a is not None:
            return a
        return s.rat()

    def rat(s):
        """the fraction as an atom, the same for equal fractions whatever common factors they carry"""
        f = lambda p: tuple(sorted(p.items(), key=lambda x: mkey(x[0])))
        t = T("rat", f(s.n), f(s.d))
        if s.d == {ONEM: 1} or not s.n:
            return t
        r = _RATS.get(t)
        if r is not None:
            return r[0]
        k = fingerprint(s)
        group = _FINGER.setdefault(k, [])
        for u, o in group:
            if len(s.n) * len(o.d) + len(o.n) * len(s.d) < 40000 and pmul(s.n, o.d) == pmul(o.n, s.d):
                _RATS[t] = (u,)
                return u
        group.append((t, s))
        _RATS[t] = (t,)
        return t

    def atoms(s):
        return {a for p in (s.n, s.d) for m in p for a, _ in m}

    def __repr__(s):
        n = showp(s.n)
        return n if s.d == {ONEM: 1} else f"({n})/({showp(s.d)})"


_RATS, _FINGER = {}, {}
PRIME = 2 ** 61 - 1


def value(a):
    """a pseudo-random residue for an atom, sines and cosines of one angle fitting together"""
    if a.op in ("sin", "cos"):
        t = pow(3, 2 * (a.args[0].uid if isinstance(a.args[0], T) else hash(a.args[0])) + 7919, PRIME)
        q = pow(1 + t * t, -1, PRIME)
        return (2 * t if a.op == "sin" else 1 - t * t) * q % PRIME
    return pow(5, a.uid * 1009 + 104729, PRIME)


def fingerprint(r):
    """value of a fraction modulo a prime at pseudo-random values of its atoms"""
    def ev(p):
        v = 0
        for m, c in p.items():
            x = c.numerator * pow(c.denominator, -1, PRIME) % PRIME
            for a, e in m:
                x = x * pow(value(a), e, PRIME) % PRIME
            v += x
        return v % PRIME
    d = ev(r.d)
    return None if d == 0 else ev(r.n) * pow(d, -1, PRIME) % PRIME


def pdiv(n, d):
    """exact polynomial division or None (no sin/sqrt relations used)."""
    if not n:
        return {}
    if len(n) > 200 or len(d) > 60:
        return None
    q = {}
    n = dict(n)
    ld = lead(d)
    lc = d[ld]
    for _ in range(200):
        if not n:
            return q
        ln = lead(n)
        dm = dict(ln)
        for a, e in ld:
            if dm.get(a, 0) < e:
                return None
            dm[a] -= e
        m = tuple(sorted(((a, e) for a, e in dm.items() if e), key=lambda x: x[0].uid))
        c = n[ln] / lc
        q = padd(q, {m: c})
        sub = {}
        for k, v in d.items():
            kk = mmul(m, k)
            sub[kk] = sub.get(kk, 0) + v * c
        n = padd(n, sub, -1)
        if len(n) > 400:
            return None
    return None


def showp(p):
    from .terms import show
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda x: mkey(x[0])):
        s = "*".join(showa(a) + (f"^{e}" if e != 1 else "") for a, e in m)
        cs = str(c) if c.denominator == 1 or len(str(c)) < 9 else f"{float(c):g}"
        out.append((cs if not s else s if c == 1 else f"-{s}" if c == -1 else f"{cs}*{s}"))
    return " + ".join(out).replace("+ -", "- ")


def showa(a):
    from .terms import show
    if a.op in ("cos", "sin", "sqrt"):
        return f"{a.op}({showt(a.args[0])})"
    return show(a)


def showt(t):
    if t.op == "rat":
        return repr(R(dict(t.args[0]), dict(t.args[1])))
    return showa(t)


def of_term(t):
    """inverse of R.term on canonical terms."""
    if t.op == "const":
        return R.of(t.args[0])
    if t.op == "rat":
        return R(dict(t.args[0]), dict(t.args[1]))
    return R.atom(t)
