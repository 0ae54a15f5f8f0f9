"""Interprocedural alias and mutation analysis over the package: which objects each function may modify.

A value is a pair (top, deep) of token sets: the objects it may be, and the objects reachable from it. Tokens are ("p", name, level) for a
parameter (0) or something reachable from it (1), and ("g", name, level) for a shared object: bound at module level, in a class body or as a default."""
import ast
from .scan import Scan, FUNCS
from .types import Ty, decos

IMM = {"int", "float", "str", "bool", "complex", "bytes", "Decimal", "Timestamp", "NoneType", "range", "slice", "type", "Polygon", "LineString", "Point",
       "MultiPolygon", "LinearRing", "MultiLineString", "BaseGeometry", "Callable", "Number", "LanePose", "Union[int, float]"}
FRZ = {"tuple", "Tuple", "frozenset", "frozendict", "FrozenSet", "MappingProxyType", "fd", "fs"}
MUTATORS = {"append", "add", "update", "pop", "extend", "insert", "remove", "discard", "clear", "sort", "reverse", "setdefault", "popitem", "appendleft",
            "popleft", "extendleft", "fill", "resize", "put", "itemset", "setflags", "rotate", "difference_update", "intersection_update",
            "symmetric_difference_update", "__setitem__", "__delitem__", "__setattr__", "move_to_end", "setfield", "partition", "byteswap", "subtract"}
VIEWS = {"items", "values", "keys", "get", "pop", "popitem", "popleft", "setdefault", "__getitem__", "most_common", "ravel", "reshape", "view", "transpose", "squeeze", "swapaxes", "diagonal",
         "elements", "nodes", "edges", "successors", "predecessors"}
SHALLOW = {"list", "tuple", "dict", "set", "frozenset", "sorted", "reversed", "iter", "enumerate", "zip", "map", "filter", "next", "frozendict",
           "frozendict.frozendict", "collections.OrderedDict", "collections.deque", "collections.defaultdict", "collections.Counter", "itertools.chain",
           "itertools.combinations", "itertools.permutations", "itertools.product", "itertools.islice", "itertools.cycle", "itertools.zip_longest",
           "itertools.pairwise", "copy.copy", "dataclasses.replace", "toolz.valmap", "toolz.keyfilter", "toolz.valfilter", "toolz.itemfilter", "toolz.merge",
           "itertools.chain.from_iterable", "builtins.max", "builtins.min", "max", "min", "getattr", "cachetools.keys", "heapq.nsmallest", "functools.partial",
           "toolz.concat", "toolz.first", "toolz.last", "toolz.nth", "itertools.accumulate", "operator.itemgetter", "vars"}
SAME = {"numpy.asarray", "numpy.asanyarray", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.atleast_1d", "numpy.atleast_2d",
        "typing.cast", "cast", "super", "numpy.ascontiguousarray", "numpy.broadcast_to", "iter", "max", "min", "next", "getattr", "toolz.first", "toolz.last"}
PICK = {"max", "min", "next", "getattr", "toolz.first", "toolz.last", "toolz.nth", "pop", "get", "popitem", "popleft", "setdefault", "__getitem__"}
NPMUT = {"numpy.copyto", "numpy.put", "numpy.fill_diagonal", "numpy.place", "numpy.putmask", "random.shuffle", "numpy.random.shuffle", "heapq.heappush",
         "heapq.heappop", "heapq.heapify", "heapq.heapreplace", "bisect.insort", "bisect.insort_left", "bisect.insort_right", "setattr", "delattr",
         "builtins.setattr", "builtins.delattr", "object.__setattr__"}
NONE = (frozenset(), frozenset())


def lift(s):
    return frozenset((k, n, 1) for k, n, _ in s)


def join(a, b):
    return (a[0] | b[0], a[1] | b[1]) if a != b else a


def part(v):
    """what an attribute, item or element of a value may be"""
    return (lift(v[0]) | v[1], lift(v[0]) | v[1])


def inside(vs):
    """a fresh container of values"""
    d = frozenset()
    for v in vs:
        d |= v[0] | v[1] | lift(v[0])
    return (frozenset(), d)


class Effects:
    def __init__(self, sc):
        self.sc, self.ix = sc, sc.ix
        self.mut, self.ret = {}, {}
        self.heap = {}
        self.shared = {}      # ("g", name) -> where
        self.attrdef = {}     # (class, attr) -> value
        self.moddef = {}      # (module, name) -> value
        self.names = {}       # (class, attr) rebinding etc.
        self.caches()
        self.roots()
        for i in range(8):
            before = repr((sorted((k, sorted(map(str, v))) for k, v in self.mut.items()), sorted((k, repr(sorted(map(str, v[0]))), repr(sorted(map(str, v[1])))) for k, v in self.ret.items()),
                           sorted((k, sorted(v[0] | v[1])) for k, v in self.heap.items())))
            for u in sc.units:
                if isinstance(u.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.function(u)
            self.factories()
            if repr((sorted((k, sorted(map(str, v))) for k, v in self.mut.items()), sorted((k, repr(sorted(map(str, v[0]))), repr(sorted(map(str, v[1])))) for k, v in self.ret.items()),
                     sorted((k, sorted(v[0] | v[1])) for k, v in self.heap.items()))) == before:
                break
        self.rounds = i + 1

    # ------------------------------------------------------------------ shared objects
    def caches(self):
        self.cached = set()
        for u in self.sc.units:
            if isinstance(u.node, ast.FunctionDef) and set(decos(u.node)) & {"lru_cache", "cache", "cached", "cached_property"}:
                self.cached.add(u.qual)

    def frozen_cls(self, q):
        """frozen dataclass, enum or exception"""
        ci = self.ix.classes.get(q)
        if ci is None:
            return False
        for c in self.ix.mro(q):
            k = self.ix.classes[c]
            for d in k.node.decorator_list:
                if isinstance(d, ast.Call) and any(x.arg == "frozen" and isinstance(x.value, ast.Constant) and x.value.value is True for x in d.keywords):
                    return True
        return bool({b.split(".")[-1] for b in self.ix.ext_bases(q)} & {"Enum", "IntEnum", "NamedTuple", "str", "int", "float", "tuple"})

    def shape(self, u, e, tok):
        """value of a shared definition: tok where it is mutable"""
        g = frozenset([tok]) if tok else frozenset()
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Lambda, ast.Compare, ast.UnaryOp)):
            return NONE
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return (g, lift(g))
        if isinstance(e, ast.Tuple):
            vs = [self.shape(u, x, tok) for x in e.elts]
            d = frozenset().union(*[v[0] | v[1] for v in vs]) if vs else frozenset()
            return (frozenset(), lift(d))
        if isinstance(e, ast.BinOp):
            t = [self.shape(u, x, tok) for x in (e.left, e.right)]
            return join(*t)
        if isinstance(e, ast.BoolOp):
            r = NONE
            for x in e.values:
                r = join(r, self.shape(u, x, tok))
            return r
        if isinstance(e, ast.IfExp):
            return join(self.shape(u, e.body, tok), self.shape(u, e.orelse, tok))
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.sc.resolve(u, e)
            if r and r[0] == "global":
                m, n = r[1].rsplit(".", 1)
                return self.moddef.get((m, n), NONE)
            if r and r[0] in ("class", "func", "ext", "module"):
                return NONE
            if isinstance(e, ast.Attribute):
                b = self.sc.resolve(u, e.value)
                if b and b[0] == "class":
                    return self.classattr(b[1], e.attr)
            return NONE
        if isinstance(e, ast.Subscript):
            return NONE if self.sc.resolve(u, e.value) and self.sc.resolve(u, e.value)[0] in ("class", "ext") else (g, lift(g))
        if isinstance(e, ast.Call):
            f = e.func.value if isinstance(e.func, ast.Subscript) else e.func
            r = self.sc.resolve(u, f)
            nm = r[1] if r else f.id if isinstance(f, ast.Name) else ""
            args = [*e.args, *(k.value for k in e.keywords)]
            vs = [self.shape(u, x, tok) for x in args]
            deep = frozenset().union(*[v[0] | v[1] for v in vs]) if vs else frozenset()
            short = nm.split(".")[-1]
            if short in FRZ:
                # the outermost literal is copied
                deep = frozenset()
                for x in args:
                    if isinstance(x, (ast.Dict, ast.List, ast.Tuple, ast.Set)):
                        for y in (x.values if isinstance(x, ast.Dict) else x.elts):
                            v = self.shape(u, y, tok)
                            deep |= v[0] | v[1]
                    else:
                        v = self.shape(u, x, tok)
                        deep |= v[1]
                return (frozenset(), lift(deep))
            if short in ("TypeVar", "NewType", "getLogger", "ZLogger", "Decimal", "namedtuple", "ParamSpec", "Path", "compile", "float", "int", "str", "bool", "Point", "Polygon", "LineString", "range", "Fraction"):
                return NONE
            if r and r[0] == "global":        # a NewType or alias
                t = self.sc.type(u, f)
                return NONE if t is None or t.name in IMM or t.name in ("NewType",) else (g, lift(g)) if not self.immty(t) else (frozenset(), lift(deep))
            if r and r[0] == "class":
                if self.frozen_cls(r[1]):
                    d = deep
                    for nm_, _, de, _2 in self.ix.dc_fields(r[1]):
                        pass
                    return (frozenset(), lift(deep))
                return (g, lift(g) | deep)
            if r and r[0] == "func":
                t = self.sc.call_type(u, e, {})
                if t is not None and self.immty(t):
                    return (frozenset(), lift(g) if t.name in FRZ or t.name in self.ix.classes else frozenset())
                return (g, lift(g) | deep)
            return (g, lift(g) | deep)
        return (g, lift(g))

    def immty(self, t):
        return t is not None and (t.name in IMM or t.name in FRZ or (t.name in self.ix.classes and self.frozen_cls(t.name)))

    def scalar(self, t):
        return t is not None and (t.name in IMM or t.name == "type")

    def roots(self):
        for _ in range(2):
            for m, mi in self.ix.modules.items():
                u = self.sc.byqual[m]
                for n, d in mi.defs.items():
                    if d[0] == "assign" and d[1] is not None and n != "__all__" and not (n.startswith("__") and n.endswith("__")):
                        v = self.shape(u, d[1], ("g", f"{m}.{n}", 0))
                        self.moddef[m, n] = v
            for q, ci in self.ix.classes.items():
                u = self.sc.byqual[q]
                for n, a in ci.attrs.items():
                    e = a[0] if isinstance(a, tuple) else a
                    if isinstance(e, ast.Call) and self.isfield(u, e):
                        d = next((k.value for k in e.keywords if k.arg == "default"), None)
                        self.attrdef[q, n] = self.shape(u, d, ("g", f"{q}.{n}", 0))
                    elif e is not None:
                        self.attrdef[q, n] = self.shape(u, e, ("g", f"{q}.{n}", 0))
        for v in [*self.moddef.values(), *self.attrdef.values()]:
            for t in v[0] | v[1]:
                self.shared.setdefault(t[1], t)

    def factories(self):
        """shared objects a field's default factory hands out"""
        for q, ci in self.ix.classes.items():
            u = self.sc.byqual[q]
            for n, a in ci.attrs.items():
                e = a[0] if isinstance(a, tuple) else a
                f = next((k.value for k in e.keywords if k.arg in ("default_factory", "factory")), None) if isinstance(e, ast.Call) and self.isfield(u, e) else None
                if isinstance(f, ast.Lambda):
                    ps = [*f.args.posonlyargs, *f.args.args]
                    ds = [*zip([x.arg for x in ps][len(ps) - len(f.args.defaults):], f.args.defaults), *((x.arg, d) for x, d in zip(f.args.kwonlyargs, f.args.kw_defaults) if d is not None)]
                    env = {x: self.shape(u, d, ("g", f"{q}.{n}({x})", 0)) for x, d in ds}
                    if isinstance(f.body, ast.Name) and f.body.id in env:
                        v = env[f.body.id]
                    else:
                        v = self.shape(u, f.body, None)
                        inner = [env[x.id] for x in ast.walk(f.body) if isinstance(x, ast.Name) and x.id in env]
                        v = join(v, inside(inner))
                elif f is not None:
                    r = self.sc.resolve(u, f)
                    v = self.ret.get(r[1], NONE) if r and r[0] == "func" else NONE
                else:
                    continue
                for t in v[0] | v[1]:
                    if t[0] == "g":
                        self.shared.setdefault(t[1], t)
                self.keep(q, n, v)

    def isfield(self, u, e):
        r = self.sc.resolve(u, e.func)
        return bool(r and r[1] in ("dataclasses.field", "attr.ib"))

    def classattr(self, q, name):
        for c in self.ix.mro(q):
            if (c, name) in self.attrdef:
                return self.attrdef[c, name]
        return NONE

    def heapval(self, q, name):
        v = self.heap.get((None, name), NONE) if q is None else NONE
        if q is not None and q in self.ix.classes:
            v = join(v, self.classattr(q, name))
            for c in [*self.ix.mro(q), *self.ix.subclasses(q)]:
                v = join(v, self.heap.get((c, name), NONE))
        return v

    def keep(self, q, name, v):
        """shared objects stored in an attribute"""
        g = (frozenset(t for t in v[0] if t[0] == "g"), frozenset(t for t in v[1] if t[0] == "g"))
        if q and (g[0] or g[1]):
            self.heap[q, name] = join(self.heap.get((q, name), NONE), g)

    # ------------------------------------------------------------------ functions
    def function(self, u):
        F = Fn(self, u)
        F.run()
        self.mut[u.qual] = F.mut
        self.ret[u.qual] = F.ret

    def targets(self, u, call, env):
        """package functions a call may reach: [(qual, bound receiver expr or None)]"""
        sc, f = self.sc, call.func
        if isinstance(f, ast.Subscript):
            f = f.value
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "super":
            return []
        r = sc.resolve(u, f) if not (isinstance(f, ast.Name) and f.id in env and f.id not in u.imports) else None
        if r and r[0] == "func":
            fi = self.ix.funcs.get(r[1])
            if fi is None:
                return []
            if fi.cls is not None and "classmethod" in decos(fi.node):
                return [(r[1], f.value)]
            return [(r[1], None)]
        if r and r[0] == "class":
            k = self.ix.find_method(r[1], "__init__")
            return [(k[0].qual + ".__init__", "new")] if k else []
        if r is None and isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and u.cls is not None:
                for c in self.ix.mro(u.cls.qual)[1:]:
                    if f.attr in self.ix.classes[c].methods:
                        return [(c + "." + f.attr, "self")]
                return []
            t = sc.type(u, f.value)
            if t is not None and t.name == "type" and t.args and t.args[0] is not None:
                t = t.args[0]
            if t is not None and t.name in self.ix.classes:
                out = []
                for c in [t.name, *self.ix.subclasses(t.name)]:
                    k = self.ix.find_method(c, f.attr)
                    if k and (k[0].qual + "." + f.attr) not in [o[0] for o in out]:
                        out.append((k[0].qual + "." + f.attr, None if "staticmethod" in decos(k[1]) else f.value))
                return out
            if t is None and f.attr not in MUTATORS | VIEWS:
                return [(q, None if "staticmethod" in decos(self.ix.funcs[q].node) else f.value) for q in sc.methods.get(f.attr, ()) if q in self.ix.funcs]
        return []


class Fn:
    def __init__(self, E, u):
        self.E, self.u, self.sc, self.ix = E, u, E.sc, E.ix
        self.types = E.sc.env(u)
        self.mut = {}
        self.ret = NONE
        self.globals = {n for x in u.walk() if isinstance(x, ast.Global) for n in x.names}
        self.ps = []

    def run(self):
        n = self.u.node
        a = n.args
        env = {}
        ps = [*a.posonlyargs, *a.args, *a.kwonlyargs]
        for x in ps:
            t = self.types.get(x.arg)
            if self.E.scalar(t):
                env[x.arg] = NONE
            elif t is not None and self.E.immty(t):
                env[x.arg] = (frozenset(), frozenset([("p", x.arg, 1)]))
            else:
                env[x.arg] = (frozenset([("p", x.arg, 0)]), frozenset([("p", x.arg, 1)]))
            self.ps.append(x.arg)
        for x in (a.vararg, a.kwarg):
            if x is not None:
                env[x.arg] = (frozenset(), frozenset([("p", x.arg, 1)]))
        ds = list(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for nm, d in ds:
            v = self.E.shape(self.u, d, ("g", f"{self.u.qual}({nm})", 0))
            for t in v[0] | v[1]:
                self.E.shared.setdefault(t[1], t)
            env[nm] = join(env[nm], v)
        self.block(n.body, env)
        if self.u.qual in self.E.cached:
            t = self.sc.types.ann(self.u.mod, n.returns)
            if not self.E.scalar(t):
                g = ("g", self.u.qual + "()", 0)
                self.E.shared.setdefault(g[1], g)
                self.ret = (frozenset() if self.E.immty(t) else frozenset([g]), frozenset([("g", g[1], 1)]))

    def hit(self, v, n, what, deep=False):
        for t in v[0] | (v[1] if deep else frozenset()):
            self.mut.setdefault(t, []).append((n, what))

    # ------------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def branch(self, env, *bodies):
        outs = []
        for b in bodies:
            e = dict(env)
            self.block(b, e)
            outs.append(e)
        for k in {k for o in outs for k in o}:
            r = NONE
            for o in outs:
                r = join(r, o.get(k, NONE))
            env[k] = r

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            e = dict(env)
            for x in [*s.args.posonlyargs, *s.args.args, *s.args.kwonlyargs]:
                e[x.arg] = NONE
            keep = self.ret
            self.block(s.body, e)
            env[s.name] = self.ret if keep == NONE else NONE
            self.ret = keep
        elif isinstance(s, ast.ClassDef):
            pass
        elif isinstance(s, ast.Assign):
            v = self.val(s.value, env)
            for t in s.targets:
                self.assign(t, v, s.value, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.val(s.value, env), s.value, env)
        elif isinstance(s, ast.AugAssign):
            v = self.val(s.value, env)
            if isinstance(s.target, ast.Name):
                o = env.get(s.target.id)
                if o is None:
                    o = self.val(ast.Name(s.target.id, ast.Load()), env)
                t = self.sc.type(self.u, ast.Name(s.target.id, ast.Load()))
                if s.target.id in self.globals:
                    self.mut.setdefault(("g", f"{self.u.mod.name}.{s.target.id}", 0), []).append((s, f"global {s.target.id} is changed"))
                if not self.E.immty(t):
                    self.hit((o[0], frozenset()), s, f"{s.target.id} is changed in place")
                    env[s.target.id] = join(o, inside([v])) if o != NONE else NONE
            else:
                b = self.val(s.target.value, env)
                self.hit(b, s, f"{ast.unparse(s.target)[:50]} is changed")
                t = self.sc.type(self.u, s.target)
                o = self.val(s.target, env)
                if not self.E.immty(t):
                    g = frozenset(x for x in o[0] if x[0] == "g")
                    self.hit((g, frozenset()), s, f"{ast.unparse(s.target)[:50]} is changed in place")
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.val(s.iter, env)
            for _ in range(2):
                e = dict(env)
                self.bind_loop(s.target, s.iter, it, env, e)
                self.block(s.body, e)
                for k in e:
                    env[k] = join(env.get(k, NONE), e[k])
            self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            self.val(s.test, env)
            for _ in range(2):
                e = dict(env)
                self.block(s.body, e)
                for k in e:
                    env[k] = join(env.get(k, NONE), e[k])
            self.block(s.orelse, env)
        elif isinstance(s, ast.If):
            self.val(s.test, env)
            self.branch(env, s.body, s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.val(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None, env)
            self.block(s.body, env)
        elif isinstance(s, ast.Try):
            self.branch(env, s.body, [])
            for h in s.handlers:
                self.branch(env, h.body, [])
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.Match):
            v = self.val(s.subject, env)
            for c in s.cases:
                e = dict(env)
                for x in ast.walk(c.pattern):
                    nm = getattr(x, "name", None) or getattr(x, "rest", None)
                    if nm:
                        e[nm] = join(v, part(v))
                self.block(c.body, e)
                for k in e:
                    env[k] = join(env.get(k, NONE), e[k])
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.val(s.value, env)
                t = self.sc.types.ann(self.u.mod, self.u.node.returns)
                if not self.E.scalar(t):
                    self.ret = join(self.ret, v if not (t is not None and self.E.immty(t)) else (frozenset(), v[1] | lift(v[0])))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.hit(self.val(t.value, env), s, f"{ast.unparse(t)[:50]} is deleted")
        elif isinstance(s, ast.Expr):
            self.val(s.value, env)
        elif isinstance(s, (ast.Assert, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                self.val(x, env)

    def assign(self, t, v, e, env):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.mut.setdefault(("g", f"{self.u.mod.name}.{t.id}", 0), []).append((t, f"global {t.id} is rebound"))
            env[t.id] = NONE if self.E.scalar(self.types.get(t.id)) else v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                y = x.value if isinstance(x, ast.Starred) else x
                if isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == len(t.elts):
                    self.assign(y, self.val(e.elts[i], env), e.elts[i], env)
                else:
                    self.assign(y, part(v), None, env)
        elif isinstance(t, ast.Attribute):
            r = self.sc.resolve(self.u, t.value)
            if r and r[0] == "class" and not (isinstance(t.value, ast.Name) and t.value.id in env):
                self.mut.setdefault(("g", f"{r[1]}.{t.attr}", 0), []).append((t, f"class attribute {t.attr} is rebound"))
                return
            ty = self.sc.type(self.u, t.value)
            if self.isclsref(t.value, ty):
                self.mut.setdefault(("g", f"{self.u.cls.qual if self.u.cls else '?'}.{t.attr}", 0), []).append((t, f"class attribute {t.attr} is rebound"))
                return
            if r and r[0] in ("func", "module"):
                self.mut.setdefault(("g", f"{r[1]}.{t.attr}", 0), []).append((t, f"attribute {t.attr} of {r[1]} is set"))
                return
            b = self.val(t.value, env)
            self.hit(b, t, f"{ast.unparse(t)[:50]} is set")
            c = ty.name if ty is not None and ty.name in self.ix.classes else None
            self.E.keep(c, t.attr, v)
            if isinstance(t.value, ast.Name):
                env[t.value.id + "." + t.attr] = (v[0] | lift(b[0]), v[1] | lift(b[0]))
                if t.value.id in env:
                    o = env[t.value.id]
                    env[t.value.id] = (o[0], o[1] | v[0] | v[1])
        elif isinstance(t, ast.Subscript):
            b = self.val(t.value, env)
            self.val(t.slice, env)
            self.hit(b, t, f"{ast.unparse(t)[:50]} is set")
            x = t.value
            if isinstance(x, ast.Name) and x.id in env:
                o = env[x.id]
                env[x.id] = (o[0], o[1] | v[0] | v[1])
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None, env)

    def isclsref(self, e, ty):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type":
            return True
        if isinstance(e, ast.Attribute) and e.attr == "__class__":
            return True
        return ty is not None and ty.name == "type"

    def bind_loop(self, tg, e, v, env, out):
        """binds a loop target to an element of e (whose value is v), position by position through zip and enumerate"""
        if isinstance(tg, (ast.Tuple, ast.List)) and isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id not in env and \
                not e.keywords and not any(isinstance(a, ast.Starred) for a in [*e.args, *tg.elts]):
            if e.func.id == "zip" and len(e.args) == len(tg.elts):
                for x, a in zip(tg.elts, e.args):
                    self.bind_loop(x, a, self.val(a, env), env, out)
                return
            if e.func.id == "enumerate" and len(tg.elts) == 2 and e.args:
                self.assign(tg.elts[0], NONE, None, out)
                self.bind_loop(tg.elts[1], e.args[0], self.val(e.args[0], env), env, out)
                return
        self.assign(tg, self.element(e, v, env), None, out)

    def element(self, e, v, env):
        t = self.sc.type(self.u, e)
        it = self.sc.iter_type(self.u, e, t, self.types)
        if self.E.scalar(it):
            return NONE
        return part(v)

    # ------------------------------------------------------------------ expressions
    def val(self, e, env):
        v = self.val0(e, env)
        if v != NONE and isinstance(e, (ast.Attribute, ast.Subscript, ast.Call, ast.Name)):
            t = self.sc.type(self.u, e)
            if self.E.scalar(t):
                return NONE
            if self.E.immty(t) and v[0]:
                return (frozenset(), v[1] | lift(v[0]))
        return v

    def val0(self, e, env):
        E = self.E
        if e is None or isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = self.sc.resolve(self.u, e)
            if r and r[0] == "global":
                m, n = r[1].rsplit(".", 1)
                return E.moddef.get((m, n), NONE)
            return NONE
        if isinstance(e, ast.Attribute):
            r = self.sc.resolve(self.u, e) if not (isinstance(e.value, ast.Name) and e.value.id in env) else None
            if r and r[0] == "global":
                m, n = r[1].rsplit(".", 1)
                return E.moddef.get((m, n), NONE)
            b = self.sc.resolve(self.u, e.value) if not (isinstance(e.value, ast.Name) and e.value.id in env) else None
            if b and b[0] == "class":
                return E.classattr(b[1], e.attr)
            bv = self.val(e.value, env)
            ty = self.sc.type(self.u, e.value)
            if ty is not None and ty.name == "type" and ty.args and ty.args[0] is not None:
                return E.classattr(ty.args[0].name, e.attr)
            if isinstance(e.value, ast.Name) and e.value.id + "." + e.attr in env:
                return env[e.value.id + "." + e.attr]
            if ty is not None and ty.name in self.ix.classes:
                k = self.ix.find_method(ty.name, e.attr)
                if k:        # a property
                    q = k[0].qual + "." + e.attr
                    if set(decos(k[1])) & {"property", "cached_property"}:
                        return self.apply(q, [bv], {}, e)
                    return NONE
                return join(part(bv), E.heapval(ty.name, e.attr))
            return part(bv)
        if isinstance(e, ast.Subscript):
            v = self.val(e.value, env)
            self.val(e.slice, env)
            return part(v)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return inside([self.val(x, env) for x in e.elts])
        if isinstance(e, ast.Dict):
            return inside([self.val(x, env) for x in [*e.keys, *e.values] if x is not None])
        if isinstance(e, ast.Starred):
            return self.val(e.value, env)
        if isinstance(e, ast.IfExp):
            self.val(e.test, env)
            return join(self.val(e.body, env), self.val(e.orelse, env))
        if isinstance(e, ast.BoolOp):
            r = NONE
            for x in e.values:
                r = join(r, self.val(x, env))
            return r
        if isinstance(e, ast.NamedExpr):
            v = self.val(e.value, env)
            self.assign(e.target, v, e.value, env)
            return v
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            x = dict(env)
            for g in e.generators:
                it = self.val(g.iter, x)
                self.bind_loop(g.target, g.iter, it, x, x)
                for c in g.ifs:
                    self.val(c, x)
            return inside([self.val(y, x) for y in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt])])
        if isinstance(e, ast.Lambda):
            x = dict(env)
            for a in e.args.args:
                x[a.arg] = NONE
            self.val(e.body, x)
            return NONE
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = self.val(e.value, env)
            if isinstance(e, ast.Yield):
                self.ret = join(self.ret, inside([v]))
            return v
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.BinOp):
            a, b = self.val(e.left, env), self.val(e.right, env)
            if isinstance(e.op, (ast.Add, ast.BitOr, ast.Mult)):
                return (frozenset(), frozenset(t for t in a[1] | b[1] if t[0] == "g"))
            return NONE
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.val(x, env)
        return NONE

    def call(self, e, env):
        E = self.E
        args = [self.val(a, env) for a in e.args]
        kws = {k.arg: self.val(k.value, env) for k in e.keywords}
        allv = args + list(kws.values())
        f = e.func.value if isinstance(e.func, ast.Subscript) else e.func
        r = self.sc.resolve(self.u, f) if not (isinstance(f, ast.Name) and f.id in env and f.id not in self.u.imports) else None
        nm = r[1] if r and r[0] == "ext" else f.id if r is None and isinstance(f, ast.Name) and f.id not in env else None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "object" and f.attr == "__setattr__":
            nm = "object.__setattr__"
        if nm:
            for k, v in kws.items():
                if k == "out":
                    self.hit(v, e, f"written by {nm}")
            if nm in NPMUT and e.args:
                x = e.args[0]
                if isinstance(x, ast.Name) and nm.split(".")[-1] in ("setattr", "__setattr__") and (rr := self.sc.resolve(self.u, x)) and rr[0] == "class" and x.id not in env:
                    self.mut.setdefault(("g", rr[1], 0), []).append((e, "class attribute is set"))
                self.hit(args[0], e, f"changed by {nm}")
                return NONE
            if nm in ("copy.deepcopy",):
                return NONE
            if nm in SAME or nm in SHALLOW:
                pk = nm in PICK
                if pk or nm in SAME:
                    ts = [part(v) for v in args] + ([(v[0], v[1]) for v in args] if nm in SAME or nm in ("max", "min", "getattr") else [])
                    o = NONE
                    for t in ts:
                        o = join(o, t)
                    if nm in SAME and not pk:
                        o = NONE
                        for v in args[:2] if nm.endswith("cast") else args[:1]:
                            o = join(o, v)
                    return o
                d = frozenset()
                for v in allv:
                    d |= lift(v[0]) | v[1]
                return (frozenset(), d)
            if nm.startswith("frozendict"):
                return inside(allv)
        tg = E.targets(self.u, e, env)
        if tg:
            out = NONE
            for q, recv in tg:
                fi = self.ix.funcs.get(q)
                if fi is None:
                    continue
                ps = [a.arg for a in [*fi.node.args.posonlyargs, *fi.node.args.args]]
                cls = None
                if recv == "new":
                    cls = (r[1] if r and r[0] == "class" else None)
                    new = inside(allv)
                    a = [new] + args
                elif recv == "self":
                    a = [env.get("self", NONE)] + args
                elif recv is not None:
                    a = [self.val(recv, env)] + args
                else:
                    a = args
                v = self.apply(q, a, kws, e, new=recv == "new")
                out = join(out, inside(allv) if recv == "new" else v)
            if r and r[0] == "class":
                self.construct(r[1], e, args, kws)
            return out
        if r and r[0] == "class":
            self.construct(r[1], e, args, kws)
            return inside(allv)
        if isinstance(f, ast.Attribute) and not (r and r[0] == "ext"):
            b = self.val(f.value, env)
            t = self.sc.type(self.u, f.value)
            if f.attr in MUTATORS and not E.immty(t) and not (t is not None and t.name in self.ix.classes):
                self.hit(b, e, f"{ast.unparse(f)[:50]}(...)")
                if isinstance(f.value, ast.Name) and f.value.id in env:
                    o = env[f.value.id]
                    env[f.value.id] = (o[0], o[1] | inside(allv)[1])
            if f.attr in PICK:
                return join(part(b), inside(allv[1:]) if False else (allv[1] if len(allv) > 1 else NONE))
            if f.attr in VIEWS:
                return (frozenset(t for t in b[0] if f.attr in ("ravel", "reshape", "view", "transpose", "squeeze")), lift(b[0]) | b[1])
            if f.attr in ("copy", "union", "intersection", "difference", "T"):
                return (frozenset(), lift(b[0]) | b[1]) if t is not None and t.name not in ("ndarray",) else NONE
            return NONE
        if isinstance(f, (ast.Name,)) and f.id in env:
            return NONE
        if not isinstance(f, (ast.Name, ast.Attribute)):
            self.val(f, env)
        return NONE

    def construct(self, q, e, args, kws):
        """shared objects that end up in the fields of a new object"""
        try:
            fs = [x[0] for x in self.ix.dc_fields(q)]
        except Exception:
            fs = []
        for n, v in [*zip(fs, args), *kws.items()]:
            if n:
                self.E.keep(q, n, v)

    def apply(self, q, args, kws, n, new=False):
        E = self.E
        fi = self.ix.funcs.get(q)
        if fi is None:
            return NONE
        a = fi.node.args
        ps = [x.arg for x in [*a.posonlyargs, *a.args]]
        if "classmethod" in decos(fi.node) and len(args) and ps[:1] == ["cls"]:
            args = [NONE] + args[1:]
        m = dict(zip(ps, args))
        m.update({k: v for k, v in kws.items() if k})
        extra = args[len(ps):]
        if a.vararg is not None:
            m[a.vararg.arg] = inside(extra)
        for k, v in self.E.mut.get(q, {}).items():
            if k[0] == "g":
                continue
            if k[1] in m:
                if new and ps and k[1] == ps[0]:
                    continue
                self.hit(self.tok(k, m), n, v[0][1] + f" in {q.split('.', 1)[-1]}" if " in " not in v[0][1] else v[0][1])
        rt = E.ret.get(q, NONE)
        return (self.toks(rt[0], m), self.toks(rt[1], m))

    def tok(self, k, m):
        v = m[k[1]]
        return (v[0], frozenset()) if k[2] == 0 else (lift(v[0]) | v[1], frozenset())

    def toks(self, s, m):
        out = frozenset()
        for k in s:
            if k[0] == "g":
                out |= {k}
            elif k[1] in m:
                out |= self.tok(k, m)[0]
        return out
