"""Which names can influence what a function returns, raises, yields or does: liveness in which a use counts only if the value it goes into is itself of consequence."""
import ast

QUIET = {"logger", "logging", "warnings", "print"}


def quiet(e):
    """a call that only writes a message"""
    if not isinstance(e, ast.Call):
        return False
    f = e.func
    while isinstance(f, (ast.Attribute, ast.Call)):
        f = f.value if isinstance(f, ast.Attribute) else f.func
    return isinstance(f, ast.Name) and f.id in QUIET


def names(e):
    """the names an expression reads"""
    if e is None:
        return set()
    if isinstance(e, ast.Name):
        return {e.id} if not isinstance(e.ctx, ast.Store) else set()
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        inner = names(e.key) | names(e.value) if isinstance(e, ast.DictComp) else names(e.elt)
        for g in reversed(e.generators):
            for c in g.ifs:
                inner |= names(c)
            inner -= bound(g.target)
            inner |= names(g.iter)
        return inner
    if isinstance(e, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef)):
        a = e.args
        own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        r = set()
        for d in a.defaults + [d for d in a.kw_defaults if d]:
            r |= names(d)
        body = [e.body] if isinstance(e, ast.Lambda) else e.body
        inner = set().union(*[names(b) for b in body]) if body else set()
        return r | (inner - own)
    r = set()
    for c in ast.iter_child_nodes(e):
        r |= names(c)
    return r


def bound(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


class Faint:
    def __init__(self, pure=lambda call: False):
        self.pure = pure

    def effects(self, e):
        return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(x, ast.Call) and not self.pure(x) and not quiet(x) for x in ast.walk(e))

    def function(self, node):
        """the names whose value on entry matters"""
        if isinstance(node, ast.Lambda):
            return names(node.body)
        live, _ = self.block(node.body, set(), (set(), set()))
        return live

    def block(self, body, out, ctx):
        act = False
        for s in reversed(body):
            out, a = self.stmt(s, out, ctx)
            act = act or a
        return out, act

    def store(self, t, out):
        """names read by storing into a target, whether the store matters, names written"""
        if isinstance(t, ast.Name):
            return set(), t.id in out, {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            rs = [self.store(x, out) for x in t.elts]
            return set().union(*[r[0] for r in rs]), any(r[1] for r in rs), set().union(*[r[2] for r in rs])
        if isinstance(t, ast.Starred):
            return self.store(t.value, out)
        return names(t), True, set()

    def stmt(self, s, out, ctx):
        if isinstance(s, ast.Return):
            return names(s.value), True
        if isinstance(s, ast.Raise):
            return names(s.exc) | names(s.cause), True
        if isinstance(s, ast.Assert):
            return (out | names(s.test), True) if self.effects(s.test) else (out, False)  # refusing an argument is not using it
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant) or quiet(s.value):
                return out, False
            if self.effects(s.value):
                return out | names(s.value), True
            return out, False
        if isinstance(s, ast.Assign):
            rs = [self.store(t, out) for t in s.targets]
            kill = set().union(*[r[2] for r in rs])
            if any(r[1] for r in rs):
                return (out - kill) | names(s.value) | set().union(*[r[0] for r in rs]), True
            return ((out - kill) | names(s.value), True) if self.effects(s.value) else (out - kill, False)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out, False
            rd, m, kill = self.store(s.target, out)
            if m or self.effects(s.value):
                return (out - kill) | names(s.value) | rd, True
            return out - kill, False
        if isinstance(s, ast.AugAssign):
            rd, m, kill = self.store(s.target, out)
            if m or self.effects(s.value):
                return out | names(s.value) | rd | (kill if m else set()), True
            return out, False
        if isinstance(s, ast.If):
            a, x = self.block(s.body, out, ctx)
            b, y = self.block(s.orelse, out, ctx)
            same = ast.dump(ast.Module(s.body, [])) == ast.dump(ast.Module(s.orelse, []))
            return a | b | (names(s.test) if (x or y) and not same or self.effects(s.test) else set()), x or y
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            tgt = bound(s.target) if not isinstance(s, ast.While) else set()
            after, z = self.block(s.orelse, out, ctx)
            head, act = set(after), False
            head_names = names(s.iter) if not isinstance(s, ast.While) else names(s.test)
            while True:
                b, x = self.block(s.body, set(head), (set(out), set(head)))
                x = x or bool(tgt & after)
                new = head | (b - tgt) | (head_names if x or z or self.effects(s.iter if tgt else getattr(s, "test", s)) else set())
                if new == head and x == act:
                    return head, x or z
                head, act = new, x
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            fin, w = self.block(s.finalbody, out, ctx)
            act = w
            hs = set()
            for h in s.handlers:
                l, x = self.block(h.body, fin, ctx)
                hs |= l | names(h.type)
                act = act or x
            e, x = self.block(s.orelse, fin, ctx)
            act = act or x
            b, x = self.block(s.body, e | hs, ctx)
            return b | hs, act or x
        if isinstance(s, (ast.With, ast.AsyncWith)):
            b, x = self.block(s.body, out, ctx)
            for i in reversed(s.items):
                if i.optional_vars is not None:
                    b = b - bound(i.optional_vars)
                b = b | names(i.context_expr)
            return b, True
        if isinstance(s, ast.Match):
            r, act = set(out), False
            for c in s.cases:
                l, x = self.block(c.body, out, ctx)
                caps = {n for p in ast.walk(c.pattern) for n in (getattr(p, "name", None), getattr(p, "rest", None)) if isinstance(n, str)}
                r |= (l | names(c.guard)) - caps | names(c.pattern)
                act = act or x
            return r | (names(s.subject) if act else set()), act
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if s.name in out:
                return (out - {s.name}) | names(s) | set().union(*[names(d) for d in s.decorator_list]) if s.decorator_list else (out - {s.name}) | names(s), True
            return out, False
        if isinstance(s, ast.ClassDef):
            return (out - {s.name}) | set().union(*[names(b) for b in s.body]), True
        if isinstance(s, ast.Break):
            return set(ctx[0]), True
        if isinstance(s, ast.Continue):
            return set(ctx[1]), True
        if isinstance(s, ast.Delete):
            return out | names(s), True
        return out, False
