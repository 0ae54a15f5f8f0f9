"""Package-wide syntactic facts: what every function refers to, approximate types of expressions, and the call graph."""
import ast
from .types import Types, Ty, MAPPINGS, item_type, elem_type, decos

SETS = {"set", "frozenset", "Set", "FrozenSet", "AbstractSet", "MutableSet"}
SETOPS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


class Unit:
    """a function or method with everything nested in it, or the body of a module or class"""

    def __init__(self, qual, mod, node, cls, body):
        self.qual, self.mod, self.node, self.cls, self.body = qual, mod, node, cls, body
        self.imports = {}
        for n in self.walk():
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = (n, a.name)

    def walk(self):
        for b in self.body:
            yield from ast.walk(b)

    def where(self, n):
        return f"{self.mod.path}:{getattr(n, 'lineno', 0)} {self.qual}"


class Scan:
    def __init__(self, ix):
        self.ix = ix
        self.types = Types(ix)
        self.units = []
        for q, fi in sorted(ix.funcs.items()):
            self.units.append(Unit(q, fi.mod, fi.node, fi.cls, [fi.node]))
        for q, ci in sorted(ix.classes.items()):
            body = [n for n in ci.node.body if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))] + \
                   [n for nm, n in ci.setters.items()]
            self.units.append(Unit(q, ci.mod, ci.node, ci, body))
        for nm, m in sorted(ix.modules.items()):
            body = [n for n in m.tree.body if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
            self.units.append(Unit(nm, m, m.tree, None, body))
        self.byqual = {u.qual: u for u in self.units}
        self.methods = {}
        for q, ci in ix.classes.items():
            for m in ci.methods:
                self.methods.setdefault(m, []).append(q + "." + m)
        self.setparams = set()
        self.setattrs = set()
        self._env = {}

    # ------------------------------------------------------------------ names
    def resolve(self, u, e):
        """('ext', qual) / ('func', qual) / ('class', qual) / ('global', qual) of a name or dotted expression, or None"""
        if isinstance(e, ast.Name):
            if e.id in u.imports:
                v = u.imports[e.id]
                if isinstance(v, str):
                    return ("ext", v) if v not in self.ix.modules else ("module", v)
                n, nm = v
                am = self.ix._absmod(u.mod, n.level, n.module)
                if am in self.ix.modules:
                    return self.norm(self.ix.lookup(am, nm))
                return ("ext", f"{am}.{nm}")
            return self.norm(self.ix.lookup(u.mod.name, e.id))
        if isinstance(e, ast.Attribute):
            b = self.resolve(u, e.value)
            if b is None:
                return None
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "module":
                return self.norm(self.ix.lookup(b[1], e.attr))
            if b[0] == "class":
                m = self.ix.find_method(b[1], e.attr)
                if m:
                    return ("func", m[0].qual + "." + e.attr)
        return None

    def norm(self, r):
        if r is None:
            return None
        k = r[0]
        if k == "ext":
            return ("ext", r[1])
        if k == "class":
            return ("class", r[1])
        if k == "func":
            return ("func", r[1])
        if k in ("mod", "module"):
            return ("module", r[1])
        if k == "global":
            return ("global", r[1].name + "." + r[2])
        return r

    def ext_refs(self, u):
        """every external name the unit refers to: (node, qualified name)"""
        inner = set()
        local = self.locals(u)
        for n in u.walk():
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load) and id(n) not in inner:
                x = n
                while isinstance(x, ast.Attribute):
                    x = x.value
                if not isinstance(x, ast.Name) or (x.id in local and x.id not in u.imports):
                    continue
                r = self.resolve(u, n)
                if r is None and isinstance(n, ast.Name) and x.id not in u.mod.defs:
                    r = ("ext", "builtins." + n.id)
                if r and r[0] == "ext":
                    yield n, r[1]
                    x = n
                    while isinstance(x, ast.Attribute):
                        x = x.value
                        inner.add(id(x))

    def locals(self, u):
        s = set()
        for n in u.walk():
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                s.add(n.id)
            elif isinstance(n, ast.arg):
                s.add(n.arg)
        if not isinstance(u.node, FUNCS):
            return set()
        return s

    # ------------------------------------------------------------------ types
    def env(self, u):
        if u.qual in self._env:
            return self._env[u.qual]
        env = self._env[u.qual] = {}
        for n in u.walk():
            if isinstance(n, FUNCS):
                a = n.args
                for x in a.posonlyargs + a.args + a.kwonlyargs:
                    t = self.types.ann(u.mod, x.annotation)
                    if t is not None:
                        env[x.arg] = t
                    if (u.qual, x.arg) in self.setparams:
                        env[x.arg] = Ty("set")
                if n is u.node and u.cls is not None and not isinstance(n, ast.Lambda) and a.args and "staticmethod" not in decos(n):
                    env[a.args[0].arg] = Ty("type", [Ty(u.cls.qual)]) if "classmethod" in decos(n) else Ty(u.cls.qual)
        for _ in range(3):
            before = {k: repr(v) for k, v in env.items()}
            for n in u.walk():
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    t = self.types.ann(u.mod, n.annotation)
                    if t is not None:
                        env[n.target.id] = t
                elif isinstance(n, ast.Assign):
                    for tg in n.targets:
                        self.bind(u, env, tg, self.type(u, n.value, env), n.value)
                elif isinstance(n, ast.NamedExpr):
                    self.bind(u, env, n.target, self.type(u, n.value, env), n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    t = self.type(u, n.iter, env)
                    self.bind(u, env, n.target, self.iter_type(u, n.iter, t, env), None)
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    self.bind(u, env, n.optional_vars, self.type(u, n.context_expr, env), None)
            if before == {k: repr(v) for k, v in env.items()}:
                break
        return env

    def bind(self, u, env, tg, t, v):
        if isinstance(tg, ast.Name):
            if t is not None and (tg.id not in env or t.name in SETS):
                env[tg.id] = t
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for i, x in enumerate(tg.elts):
                y = None
                if t is not None and t.name in ("tuple", "Tuple") and i < len(t.args):
                    y = t.args[i]
                elif isinstance(v, (ast.Tuple, ast.List)) and i < len(v.elts):
                    y = self.type(u, v.elts[i], env)
                self.bind(u, env, x, y, None)

    def iter_type(self, u, it, t, env):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args:
            b = self.type(u, it.func.value, env)
            if b is not None and b.name in MAPPINGS and len(b.args) == 2:
                return {"items": Ty("tuple", b.args), "values": b.args[1], "keys": b.args[0]}.get(it.func.attr)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "zip"):
            ts = [elem_type(self.type(u, x, env)) or item_type(self.type(u, x, env)) for x in it.args]
            return Ty("tuple", ([Ty("int")] if it.func.id == "enumerate" else []) + ts)
        return elem_type(t) if t is not None and t.name in MAPPINGS else (item_type(t) or elem_type(t))

    def type(self, u, e, env=None):
        env = self.env(u) if env is None else env
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = self.resolve(u, e)
            if r and r[0] == "class":
                return Ty("type", [Ty(r[1])])
            if r and r[0] == "global":
                m, n = r[1].rsplit(".", 1)
                d = self.ix.modules[m].defs.get(n)
                if d and d[0] == "assign":
                    if d[2] is not None:
                        return self.types.ann(self.ix.modules[m], d[2])
                    if d[1] is not None and not isinstance(d[1], ast.Name):
                        return self.type(self.byqual[m], d[1], {})
            return None
        if isinstance(e, (ast.Set, ast.SetComp)):
            return Ty("set")
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return Ty("dict")
        if isinstance(e, (ast.List, ast.ListComp)):
            return Ty("list")
        if isinstance(e, ast.Tuple):
            return Ty("tuple", [self.type(u, x, env) for x in e.elts])
        if isinstance(e, ast.IfExp):
            return self.type(u, e.body, env) or self.type(u, e.orelse, env)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                t = self.type(u, x, env)
                if t is not None:
                    return t
            return None
        if isinstance(e, ast.NamedExpr):
            return self.type(u, e.value, env)
        if isinstance(e, ast.Attribute):
            b = self.type(u, e.value, env)
            if b is not None and b.name == "type" and b.args and b.args[0] is not None:
                b = b.args[0]
            if b is not None and b.name in self.ix.classes:
                if any((c, e.attr) in self.setattrs for c in self.ix.mro(b.name)):
                    return Ty("set")
                return self.types.attr_type(b.name, e.attr)
            return None
        if isinstance(e, ast.Subscript):
            return item_type(self.type(u, e.value, env))
        if isinstance(e, ast.BinOp):
            a, b = self.type(u, e.left, env), self.type(u, e.right, env)
            if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and any(isset(x) or self.iskeys(y, u, env) for x, y in ((a, e.left), (b, e.right))):
                return Ty("set")
            return None
        if isinstance(e, ast.Call):
            return self.call_type(u, e, env)
        return None

    def iskeys(self, e, u, env):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "items") and not e.args

    def call_type(self, u, e, env):
        f = e.func
        r = self.resolve(u, f)
        if isinstance(f, ast.Subscript):
            r = self.resolve(u, f.value)
        if r is None and isinstance(f, ast.Name) and f.id not in env:
            n = f.id
            if n in ("set", "frozenset", "dict", "list", "tuple", "sorted"):
                return Ty("list" if n == "sorted" else n)
            return None
        if r and r[0] == "class":
            return Ty(r[1])
        if r and r[0] == "func":
            fi = self.ix.funcs.get(r[1])
            return self.types.ann(fi.mod, fi.node.returns) if fi else None
        if r and r[0] == "ext" and r[1] in ("copy.copy", "copy.deepcopy", "dataclasses.replace") and e.args:
            return self.type(u, e.args[0], env)
        if isinstance(f, ast.Attribute):
            b = self.type(u, f.value, env)
            if b is None:
                return None
            if b.name == "type" and b.args and b.args[0] is not None and b.args[0].name in self.ix.classes:
                b = b.args[0]
            if b.name in self.ix.classes:
                m = self.ix.find_method(b.name, f.attr)
                if m:
                    return self.types.ann(m[0].mod, m[1].returns)
                return None
            if isset(b) and f.attr in SETOPS:
                return Ty("set")
            if b.name in MAPPINGS and len(b.args) == 2 and f.attr in ("get", "pop", "setdefault"):
                return b.args[1]
        return None

    # ------------------------------------------------------------------ calls
    def callees(self, u):
        """package functions a unit may call or pass on: (node, qual)"""
        env = self.env(u)
        done = set()
        for n in u.walk():
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and id(n) not in done:
                r = self.resolve(u, n) if not (isinstance(n, ast.Name) and n.id in env and n.id not in u.imports) else None
                if r and r[0] == "func":
                    yield n, r[1]
                elif r and r[0] == "class":
                    for m in ("__init__", "__post_init__", "__new__"):
                        k = self.ix.find_method(r[1], m)
                        if k:
                            yield n, k[0].qual + "." + m
                elif r is None and isinstance(n, ast.Attribute):
                    t = self.type(u, n.value, env)
                    if t is not None and t.name == "type" and t.args and t.args[0] is not None:
                        t = t.args[0]
                    if t is not None and t.name in self.ix.classes:
                        for c in [t.name, *self.ix.subclasses(t.name)]:
                            k = self.ix.find_method(c, n.attr)
                            if k:
                                yield n, k[0].qual + "." + n.attr
                    elif t is None:
                        for q in self.methods.get(n.attr, ()):
                            yield n, q

    def graph(self):
        g = {}
        for u in self.units:
            g[u.qual] = {q for _, q in self.callees(u)}
        return g

    def infer_sets(self):
        """propagate set-typed arguments to the parameters they are passed for, and set-typed attributes"""
        for _ in range(4):
            n = len(self.setparams) + len(self.setattrs)
            self._env = {}
            for u in self.units:
                env = self.env(u)
                for x in u.walk():
                    if isinstance(x, ast.Call):
                        r = self.resolve(u, x.func)
                        q = None
                        if r and r[0] == "func":
                            q, skip = r[1], 0
                        elif r and r[0] == "class":
                            k = self.ix.find_method(r[1], "__init__")
                            q, skip = (k[0].qual + ".__init__", 1) if k else (None, 0)
                        elif isinstance(x.func, ast.Attribute):
                            t = self.type(u, x.func.value, env)
                            k = self.ix.find_method(t.name, x.func.attr) if t is not None and t.name in self.ix.classes else None
                            q, skip = (k[0].qual + "." + x.func.attr, 0 if "staticmethod" in decos(k[1]) else 1) if k else (None, 0)
                        if q and q in self.ix.funcs:
                            ps = [a.arg for a in self.ix.funcs[q].node.args.args][skip:]
                            for p, a in [*zip(ps, x.args), *((k.arg, k.value) for k in x.keywords if k.arg)]:
                                if isset(self.type(u, a, env)):
                                    self.setparams.add((q, p))
                    elif isinstance(x, ast.Assign) and u.cls is not None:
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and isset(self.type(u, x.value, env)):
                                self.setattrs.add((u.cls.qual, t.attr))
            if len(self.setparams) + len(self.setattrs) == n:
                break
        self._env = {}


def isset(t):
    return t is not None and t.name in SETS


def parents(u):
    p = {}
    for n in u.walk():
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p
