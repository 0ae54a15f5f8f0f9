"""Package-wide effect and taint analysis: sources of non-determinism, the flow of clock readings, and iteration over unordered collections."""
import ast
from ..scan import Scan, isset, parents, FUNCS

RANDOM = ("random.", "numpy.random.", "secrets.", "scipy.stats.", "torch.rand")
SEEDED = {"random.Random", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.SeedSequence", "numpy.random.Generator",
          "numpy.random.PCG64", "numpy.random.MT19937", "numpy.random.Philox"}
PROCESS = ("uuid.uuid1", "uuid.uuid4", "os.urandom", "os.getpid", "os.getenv", "os.environ", "builtins.id", "builtins.input", "builtins.hash", "socket.",
           "threading.", "multiprocessing.", "concurrent.", "asyncio.", "os.times", "os.cpu_count", "platform.", "psutil.")
CLOCKS = ("time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.process_time", "time.process_time_ns", "time.monotonic",
          "time.monotonic_ns", "time.thread_time", "time.localtime", "time.gmtime", "time.ctime", "time.strftime",
          "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "timeit.default_timer")
LOGS = {"logger", "logging", "warnings", "log"}


def check(rep):
    rep.rule("random", "nothing but explicitly random input generators draws unseeded random numbers")
    rep.rule("process", "nothing depends on object identity, hash seeds, threads, processes or the environment")
    rep.rule("clock", "clock readings end in the logs only")
    rep.rule("order", "nothing depends on the order in which an unordered collection is iterated")
    sc = Scan(rep.ix)
    sc.infer_sets()
    rep.funcs |= {u.qual for u in sc.units}
    sources(rep, sc)
    Clock(rep, sc).run()
    order(rep, sc)
    rep.counts["units"] = len(sc.units)


def annotations(u):
    """nodes inside annotations"""
    out = set()
    for n in u.walk():
        for a in (getattr(n, "annotation", None), getattr(n, "returns", None)):
            if a is not None:
                out |= {id(x) for x in ast.walk(a)}
    return out


def under(q, prefixes):
    return any(q == p.rstrip(".") or q.startswith(p if p.endswith(".") else p + ".") or q == p for p in prefixes)


def sources(rep, sc):
    draws = {}
    n = 0
    for u in sc.units:
        ann = annotations(u)
        par = None
        for node, q in sc.ext_refs(u):
            n += 1
            if id(node) in ann:
                continue
            if under(q, RANDOM):
                par = par or parents(u)
                p = par.get(node)
                call = p if isinstance(p, ast.Call) and p.func is node else None
                if q in SEEDED:
                    if call is None or [a for a in [*call.args, *(k.value for k in call.keywords)] if not (isinstance(a, ast.Constant) and a.value is None)]:
                        continue
                draws.setdefault(u.qual, []).append((u, node, q))
            if under(q, PROCESS):
                if q == "builtins.hash" and u.qual.endswith("__hash__"):
                    continue
                rep.ob("process", f"{u.qual}: {q}", False, f"uses {q}", u.where(node))
    rep.counts["external references"] = n
    rep.ob("process", "scan", True)
    g = sc.graph()
    back = {}
    for a, bs in g.items():
        for b in bs:
            back.setdefault(b, set()).add(a)
    for q, xs in sorted(draws.items()):
        todo, seen = [(q, (q,))], {q}
        while todo:
            a, path = todo.pop()
            ok = "random" in a.split(".")[-1]
            rep.ob("random", a, ok, f"draws from {xs[0][2]} without a seed" + (f" through {' -> '.join(path[::-1])}" if len(path) > 1 else ""), xs[0][0].where(xs[0][1]))
            for b in sorted(back.get(a, ())):
                if b not in seen:
                    seen.add(b)
                    todo.append((b, path + (b,)))
    rep.counts["unseeded generators"] = len(draws)


class Clock:
    """Taint of clock readings, through local names, tuples, calls and returns."""

    def __init__(self, rep, sc):
        self.rep, self.sc = rep, sc
        self.ret = {}          # function -> True or set of tuple positions that carry a reading
        self.par = {}          # function -> tainted parameters
        self.n = 0

    def run(self):
        for _ in range(12):
            before = repr((sorted((k, repr(v)) for k, v in self.ret.items()), sorted((k, sorted(v)) for k, v in self.par.items())))
            self.bad = {}
            self.n = 0
            for u in self.sc.units:
                self.unit(u)
            if before == repr((sorted((k, repr(v)) for k, v in self.ret.items()), sorted((k, sorted(v)) for k, v in self.par.items()))):
                break
        for (q, line), (what, where) in sorted(self.bad.items()):
            self.rep.ob("clock", f"{q}", False, what, where)
        called = {c for u in self.sc.units for _, c in self.sc.callees(u)}
        for q, v in sorted(self.ret.items()):
            self.rep.ob("clock", f"{q} returns", q in called, "returns a clock reading", self.sc.byqual[q].where(self.sc.byqual[q].node))
        self.rep.counts["clock readings"] = self.n
        self.rep.ob("clock", "scan", True)

    def flag(self, u, n, what):
        self.bad[(u.qual, n.lineno)] = (what, u.where(n))

    def taint(self, u, e, names):
        """True, or the positions of a tuple, or False"""
        if e is None:
            return False
        if isinstance(e, ast.Name):
            return names.get(e.id, False)
        if isinstance(e, ast.Tuple):
            s = {i for i, x in enumerate(e.elts) if self.taint(u, x, names)}
            return s or False
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            t = self.taint(u, e.value, names)
            return t if t is True else bool(t) and e.slice.value in t
        if isinstance(e, ast.Call):
            r = self.sc.resolve(u, e.func)
            if r and r[0] == "ext" and r[1] in CLOCKS:
                self.n += 1
                return True
            for q in self.targets(u, e):
                if self.ret.get(q):
                    return self.ret[q]
            if self.targets(u, e):
                return False       # what flows in is followed as a parameter
        if isinstance(e, FUNCS):
            return False
        return any(self.taint(u, x, names) for x in ast.iter_child_nodes(e) if isinstance(x, (ast.expr, ast.keyword, ast.comprehension)))

    def targets(self, u, call):
        ids = {id(x) for x in [call.func]}
        if not hasattr(u, "_callees"):
            u._callees = {}
            for n, q in self.sc.callees(u):
                u._callees.setdefault(id(n), set()).add(q)
        return {q for i in ids for q in u._callees.get(i, ())}

    def islog(self, u, f, env):
        chain = [x for x in ast.walk(f)]
        names = {x.id for x in chain if isinstance(x, ast.Name)}
        attrs = {x.attr for x in chain if isinstance(x, ast.Attribute)}
        if names & LOGS or names == {"print"} or "savefig" in attrs or attrs & LOGS or "info" in attrs:
            return True
        return any(env.get(n) for n in names)

    def unit(self, u):
        names = {a: True for a in self.par.get(u.qual, ())}
        logs = {}
        for n in u.walk():
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and self.islog(u, n.value, {}) and not isinstance(n.value, ast.Call):
                logs[n.targets[0].id] = True
        if not any(isinstance(n, ast.Call) for n in u.walk()):
            return
        for _ in range(6):
            before = dict(names)
            for n in u.walk():
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
                    t = self.taint(u, n.value, names)
                    for tg in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        self.store(u, n, tg, t, n.value, names)
                elif isinstance(n, (ast.For, ast.comprehension)) and self.taint(u, n.iter, names):
                    self.store(u, n if isinstance(n, ast.For) else n.target, n.target, True, None, names)
            if before == names:
                break
        for n in u.walk():
            if isinstance(n, ast.Return) and n.value is not None:
                t = self.taint(u, n.value, names)
                if t:
                    if not self.top(u, n):
                        self.flag(u, n, "a nested function returns a clock reading")
                    else:
                        o = self.ret.get(u.qual)
                        self.ret[u.qual] = True if t is True or o is True else (o or set()) | t
            elif isinstance(n, (ast.Yield, ast.YieldFrom)) and self.taint(u, n.value, names):
                self.flag(u, n, "yields a clock reading")
            elif isinstance(n, (ast.If, ast.While)) and self.taint(u, n.test, names):
                if not all(self.quiet(u, s, logs) for s in n.body + n.orelse):
                    self.flag(u, n, "a clock reading decides what happens")
            elif isinstance(n, (ast.IfExp,)) and self.taint(u, n.test, names):
                self.flag(u, n, "a clock reading decides a value")
            elif isinstance(n, ast.Assert) and self.taint(u, n.test, names):
                self.flag(u, n, "a clock reading is asserted")
            elif isinstance(n, ast.Call):
                vals = [(i, a) for i, a in enumerate(n.args)] + [(k.arg, k.value) for k in n.keywords]
                hot = [(i, a) for i, a in vals if self.taint(u, a, names)]
                if not hot or self.islog(u, n.func, logs):
                    continue
                tg = self.targets(u, n)
                if tg:
                    for q in tg:
                        fi = self.sc.ix.funcs.get(q)
                        if fi is None:
                            continue
                        ps = [a.arg for a in fi.node.args.args]
                        if fi.cls is not None and ps[:1] in (["self"], ["cls"]):
                            ps = ps[1:]
                        for i, a in hot:
                            nm = i if isinstance(i, str) else ps[i] if isinstance(i, int) and i < len(ps) else None
                            if nm:
                                self.par.setdefault(q, set()).add(nm)
                elif isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add", "extend", "insert", "update", "put", "setdefault", "__setitem__"):
                    b = n.func.value
                    if isinstance(b, ast.Name) and b.id not in names and b.id in self.sc.locals(u):
                        names[b.id] = True
                    self.flag(u, n, f"a clock reading is kept by {ast.unparse(n.func)[:60]}")

    def top(self, u, n):
        """whether a return belongs to the function itself"""
        if not hasattr(u, "_own"):
            u._own = set()
            stack = list(getattr(u.node, "body", [])) if isinstance(u.node, (ast.FunctionDef, ast.AsyncFunctionDef)) else []
            while stack:
                x = stack.pop()
                u._own.add(id(x))
                if not isinstance(x, FUNCS):
                    stack += list(ast.iter_child_nodes(x))
        return id(n) in u._own

    def quiet(self, u, s, logs):
        if isinstance(s, ast.Pass):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            return self.islog(u, s.value.func, logs)
        if isinstance(s, ast.If):
            return all(self.quiet(u, x, logs) for x in s.body + s.orelse)
        return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)

    def store(self, u, n, tg, t, v, names):
        if isinstance(tg, ast.Name):
            if t:
                o = names.get(tg.id, False)
                names[tg.id] = True if t is True or o is True else (o or set()) | t
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for i, x in enumerate(tg.elts):
                self.store(u, n, x, t is True or bool(t) and i in t, None, names)
        elif t:
            if not self.islog(u, tg, {}):
                self.flag(u, n, f"a clock reading is stored in {ast.unparse(tg)[:60]}")


SAFE_CALLS = {"set", "frozenset", "any", "all", "len", "bool", "sorted", "isinstance", "type", "id", "repr", "str", "print", "min", "max"}
SAFE_METHODS = {"union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "add", "discard", "remove", "update",
                "difference_update", "intersection_update", "symmetric_difference_update", "copy", "clear", "__contains__"}
SEQUENCERS = {"list", "tuple", "iter", "next", "enumerate", "zip", "map", "filter", "reversed", "sum", "dict", "numpy.array", "numpy.asarray", "collections.deque",
              "itertools.chain", "itertools.product", "itertools.combinations", "itertools.permutations", "toolz.first", "numpy.fromiter",
              "toolz.concat", "itertools.cycle", "itertools.islice", "functools.reduce", "toolz.take", "toolz.nth", "more_itertools.first", "dict.fromkeys",
              "collections.OrderedDict", "itertools.accumulate", "numpy.sum", "math.fsum"}


def order(rep, sc):
    n = 0
    for u in sc.units:
        par = parents(u)
        env = sc.env(u)
        for e in u.walk():
            if not isinstance(e, ast.expr) or not isset(sc.type(u, e, env)):
                continue
            n += 1
            p = par.get(e)
            what = None
            if isinstance(p, ast.For) and p.iter is e:
                if not commutes(u, sc, p, env):
                    what = "a loop whose effect depends on the order of a set"
            elif isinstance(p, ast.comprehension) and p.iter is e:
                c = par[p]
                if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and not consumed(u, sc, c, par):
                    what = "a sequence in the order of a set"
            elif isinstance(p, ast.Call) and e in p.args:
                r = sc.resolve(u, p.func)
                nm = r[1] if r and r[0] == "ext" else p.func.id if isinstance(p.func, ast.Name) else None
                key = any(k.arg == "key" for k in p.keywords)
                if nm in SEQUENCERS and not consumed(u, sc, p, par) or nm in ("sorted", "min", "max") and key:
                    what = f"{nm} takes the elements of a set in their order"
                if isinstance(p.func, ast.Attribute) and p.func.attr in ("extend", "join", "from_iterable", "fromkeys"):
                    what = f"{p.func.attr} takes the elements of a set in their order"
            elif isinstance(p, ast.Attribute) and p.value is e and p.attr == "pop" and isinstance(par.get(p), ast.Call):
                what = "pop takes an arbitrary element of a set"
            elif isinstance(p, ast.Starred):
                if not isinstance(par.get(p), ast.Set) and not consumed(u, sc, p, par):
                    what = "unpacks a set in its order"
            elif isinstance(p, ast.Assign) and p.value is e and any(isinstance(t, (ast.Tuple, ast.List)) for t in p.targets):
                what = "unpacks a set in its order"
            elif isinstance(p, ast.Return) and False:
                pass
            rep.ob("order", f"{u.qual}: {ast.unparse(e)[:60]}", what is None, what, u.where(e))
    rep.counts["set expressions"] = n


def consumed(u, sc, c, par):
    """the sequence is only used where its order does not matter"""
    p = par.get(c)
    if isinstance(p, ast.Call) and c in p.args:
        nm = p.func.id if isinstance(p.func, ast.Name) else p.func.attr if isinstance(p.func, ast.Attribute) else ""
        if isinstance(p.func, ast.Attribute) and nm in ("update", "union", "intersection", "difference", "issubset", "issuperset") and isset(sc.type(u, p.func.value)):
            return True
        if nm in ("sorted", "min", "max"):
            return not any(k.arg == "key" for k in p.keywords)
        if nm in ("list", "tuple", "enumerate", "map", "filter"):
            return consumed(u, sc, p, par)
        return nm in ("set", "frozenset", "any", "all", "len")
    if isinstance(p, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
        return True
    if isinstance(p, ast.comprehension):
        return isinstance(par[p], ast.SetComp) or consumed(u, sc, par[p], par)
    return isinstance(p, ast.JoinedStr) and False


def commutes(u, sc, loop, env):
    """every statement of the body has the same effect in any order of the iterations"""
    inner = {n.id for n in ast.walk(loop) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    later = {n.id for n in u.walk() if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.lineno > (loop.end_lineno or 0)}
    bound = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}

    def own(e):
        return isinstance(e, ast.Name) and isinstance(loop.target, ast.Name) and e.id == loop.target.id

    def ok(s):
        if isinstance(s, (ast.Pass, ast.Continue, ast.Assert, ast.Raise)):
            return True
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return True
            if isinstance(s.value, ast.Call):
                f = s.value.func
                if isinstance(f, ast.Attribute) and f.attr in SAFE_METHODS and isset(sc.type(u, f.value, env)):
                    return True
                if isinstance(f, ast.Attribute) and f.attr in ("pop", "discard", "remove") and s.value.args and own(s.value.args[0]):
                    return True       # removing distinct elements
                if isinstance(f, ast.Attribute) and any(isinstance(x, ast.Subscript) and own(x.slice) for x in ast.walk(f.value)):
                    return True       # each element has its own receiver
                return any(isinstance(x, ast.Name) and x.id in LOGS | {"print"} for x in ast.walk(f))
            return False
        if isinstance(s, ast.Delete):
            return all(isinstance(t, ast.Subscript) and own(t.slice) for t in s.targets)
        if isinstance(s, ast.If):
            return all(ok(x) for x in s.body + s.orelse)
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            return all(isinstance(t, ast.Name) and t.id not in later for t in ts)
        if isinstance(s, ast.AugAssign):
            return isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.BitOr, ast.BitAnd)) and isinstance(s.value, ast.Constant)
        if isinstance(s, ast.Return):
            return s.value is None or isinstance(s.value, ast.Constant)
        if isinstance(s, ast.For):
            return all(ok(x) for x in s.body)
        return False
    return not (bound & later) and all(ok(s) for s in loop.body) and not loop.orelse
