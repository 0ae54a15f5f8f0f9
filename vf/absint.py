"""Abstract interpreter: one pass over a function's AST building its gated value-flow graph and effect trace."""
import ast
from .terms import *
from .index import FuncInfo, ClassInfo, AnchorError
from .types import Types, Ty, decos, item_type, elem_type, MAPPINGS
from .calls import CallMixin
from .loops import LoopMixin


class State:
    __slots__ = ("frames", "heap", "pc")

    def __init__(self, frames=None, heap=None, pc=TRUE):
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def fork(self):
        return State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap), self.pc)

    def become(self, o):
        self.frames, self.heap, self.pc = o.frames, o.heap, o.pc


class Effect:
    __slots__ = ("kind", "target", "name", "args", "kwargs", "value", "guard", "loops", "file", "line", "func", "stack", "seq",
                 "fvalue", "fargs", "ftarget", "raw")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def where(self):
        return f"{self.file}:{self.line} ({self.func})"

    def __repr__(self):
        g = "" if self.guard is TRUE else f" IF {show(self.guard, 0, 6)}"
        l = "".join(f" ∀{show(x[0], 0, 5)}" for x in self.loops)
        if self.kind in ("call", "mutate"):
            a = ", ".join([show(x, 0, 6) for x in self.args or ()] + [f"{k}={show(v, 0, 6)}" for k, v in self.kwargs or ()])
            return f"{self.kind} {show(self.target, 0, 6) + '.' if self.target is not None else ''}{self.name}({a}){g}{l}"
        return f"{self.kind} {show(self.target, 0, 6) if self.target is not None else ''} [{show(self.name) if isinstance(self.name, T) else self.name}] = {show(self.value, 0, 8)}{g}{l}"


class Frame:
    __slots__ = ("fid", "fn", "mod", "cls", "parent", "selfterm", "nonlocals", "qual", "yields", "origin")

    def __init__(self, fid, fn, mod, cls, parent=None, qual=""):
        self.fid, self.fn, self.mod, self.cls, self.parent, self.qual = fid, fn, mod, cls, parent, qual
        self.selfterm = None
        self.nonlocals = set()
        self.yields = None
        self.origin = {}


class Result:
    def __init__(self, value, st, effects, raises, interp):
        self.value, self.state, self.effects, self.raises, self.ip = value, st, effects, raises, interp

    def frozen(self):
        return self.ip.freeze(self.value, self.state)


LOG_ROOTS = ("logger", "logging", "warnings")


class Interp(CallMixin, LoopMixin):
    def __init__(self, index, opaque=(), overrides=None, pure=None, maxdepth=16, inline_pred=None):
        self.ix = index
        self.ty = Types(index)
        self.opaque = set(opaque)
        self._truthy = {}
        self.overrides = overrides or {}
        self.unroll = 0  # unroll every while loop up to that many iterations
        self.ext_enums = ()  # external enumerations; their members differ
        self.ext_types = {}  # values known to be instances of exactly that external class
        self.strict = False  # a failing assertion ends the path like a raise
        self.carried = {}      # loop-carried value -> (value on entry, value after one iteration)
        self.inline_pred = inline_pred
        self.extra_pure = set(pure or ())
        self.maxdepth = maxdepth
        self.types = {}           # T -> Ty
        self.exact = set()        # T whose dynamic class is exactly its declared class
        self.base_heap = {}
        self.memo_globals = {}
        self.memo_clsattr = {}
        self.closures = {}        # id -> (node, Frame)
        self.refs = {}            # T ref -> class qual or '#list' ...
        self.effects = []
        self.loops = []
        self.nloop = 0
        self.early = {}           # loop id -> conditions of early exits
        self.frames = []          # active Frame stack
        self.frameinfo = {}
        self.nfid = 0
        self.noid = 0
        self.nimp = 0
        self.raises = []          # pending (Outcome)
        self.try_attr = 0         # enclosing try blocks that catch AttributeError
        self.notes = []
        self.steps = 0
        self.maxsteps = 400000
        self.visited = set()      # functions analysed

    # ------------------------------------------------------------------ utils
    def new_ref(self, cls):
        self.noid += 1
        t = T("ref", self.noid, cls)
        self.refs[t] = cls
        return t

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def typed(self, name, clsname, exact=True, hint=None):
        q = clsname if clsname in self.ix.classes else self.ix.cls(clsname, hint).qual
        v = var(name)
        self.types[v] = Ty(q)
        if exact:
            self.exact.add(v)
        return v

    def cur(self):
        return self.frames[-1] if self.frames else None

    def effect(self, kind, st, node=None, target=None, name=None, args=(), kwargs=(), value=None):
        fr = self.cur()
        e = Effect(kind=kind, target=target, name=name, args=tuple(args), kwargs=tuple(kwargs), value=value,
                   guard=st.pc, loops=tuple(self.loops), file=fr.mod.path if fr else "?", line=getattr(node, "lineno", 0),
                   func=fr.qual if fr else "?", stack=tuple(f.qual for f in self.frames), seq=len(self.effects))
        fz = lambda t: self.freeze(t, st) if isinstance(t, T) else t
        e.fvalue = fz(value)
        e.fargs = tuple(fz(a) for a in args)
        e.kwargs = tuple((k, fz(v)) for k, v in kwargs)
        e.ftarget = fz(target)
        self.effects.append(e)
        return e

    def freeze(self, t, st, seen=()):
        """Replaces references by the record / list / dict they denote in this state."""
        memo = {}

        def go(x, path):
            if isinstance(x, tuple):
                return tuple(go(y, path) for y in x)
            if not isinstance(x, T):
                return x
            if x in memo:
                return memo[x]
            if x.op == "mu":
                return x
            if x.op == "ref":
                if x in path:
                    return T("rec", x.args[1], (("...", NONE),))
                p2 = path | {x}
                c = x.args[1]
                v = self.hget(st, x, "#v")
                if v is not None:
                    r = go(v, p2)
                else:
                    fs = [(a, h) for (o, a), h in list(self.base_heap.items()) + list(st.heap.items())
                          if o is x and isinstance(a, str) and not a.startswith("#")]
                    d = {}
                    for a, h in fs:
                        d[a] = h
                    r = T("rec", c, tuple((a, go(d[a], p2)) for a in sorted(d)))
            else:
                args = tuple(go(a, path) for a in x.args)
                r = x if all(p is q for p, q in zip(args, x.args)) else mk(x.op, args)
            memo[x] = r
            return r

        return go(t, frozenset(seen))

    def hget(self, st, obj, key):
        v = st.heap.get((obj, key))
        if v is None:
            v = self.base_heap.get((obj, key))
        return v

    # ------------------------------------------------------------------ types
    def typeof(self, t, d=0):
        if not isinstance(t, T) or d > 12:
            return None
        if t in self.types:
            return self.types[t]
        r = None
        if t.op == "ref":
            r = Ty(t.args[1]) if not t.args[1].startswith("#") else Ty(t.args[1][1:])
        elif t.op == "attr":
            o = self.typeof(t.args[0], d + 1)
            if o is not None and o.name in self.ix.classes:
                r = self.ty.attr_type(o.name, t.args[1])
        elif t.op == "item":
            o = self.typeof(t.args[0], d + 1)
            if o is not None and o.name in ("tuple", "Tuple") and isconst(t.args[1]) and isinstance(t.args[1].args[0], int) \
                    and -len(o.args) <= t.args[1].args[0] < len(o.args):
                r = o.args[t.args[1].args[0]]
            else:
                if o is not None and o.name in self.ix.classes:
                    for b in self.ix.mro(o.name):
                        for e in self.ix.classes[b].node.bases:
                            if isinstance(e, ast.Subscript):
                                bt = self.ty.ann(self.ix.classes[b].mod, e)
                                if bt and bt.name in MAPPINGS:
                                    o = bt
                r = item_type(o)
        elif t.op == "elem":
            r = elem_type(self.typeof(t.args[0], d + 1))
        elif t.op == "fn" and t.args[0] in ("deepcopy", "copy"):
            r = self.typeof(t.args[1], d + 1)
        elif t.op in ("mcall", "call"):
            r = self.types.get(t)
        elif t.op == "ite":
            r = self.typeof(t.args[1], d + 1) or self.typeof(t.args[2], d + 1)
        elif t.op == "fn" and t.args[0] in ("list", "tuple", "sorted"):
            r = self.typeof(t.args[1], d + 1) if len(t.args) > 1 else None
        if r is not None:
            self.types[t] = r
        return r

    def clsof(self, t):
        """Repository class of a term's value, or None."""
        ty = self.typeof(t)
        return ty.name if ty is not None and ty.name in self.ix.classes else None

    def is_exact(self, t):
        return t.op == "ref" or t in self.exact or (t.op == "fn" and t.args[0] in ("deepcopy", "copy") and self.is_exact(t.args[1]))

    # ------------------------------------------------------------------ entry
    def run(self, fi, args=None, selfterm=None, st=None, kwargs=None, keep_effects=False):
        """Analyse function fi with the given argument terms (default: symbolic, typed by annotation)."""
        if not keep_effects:
            self.effects = []
            self.raises = []
        st = st or State()
        fn = fi.node
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        is_method = fi.cls is not None and "staticmethod" not in decos(fn)
        args = dict(args or {})
        if is_method:
            if "classmethod" in decos(fn):
                vals[names[0]] = selfterm or T("cls", fi.cls.qual)
            else:
                if selfterm is None:
                    selfterm = self.typed("self", fi.cls.qual)
                vals[names[0]] = selfterm
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg in vals:
                continue
            if x.arg in args:
                vals[x.arg] = args[x.arg]
                continue
            v = var(x.arg)
            ty = self.ty.ann(fi.mod, x.annotation)
            if ty is not None and v not in self.types:
                self.types[v] = ty
            vals[x.arg] = v
        if a.vararg and a.vararg.arg not in vals:
            vals[a.vararg.arg] = args.get(a.vararg.arg, var("*" + a.vararg.arg))
        if a.kwarg and a.kwarg.arg not in vals:
            vals[a.kwarg.arg] = args.get(a.kwarg.arg, var("**" + a.kwarg.arg))
        n0 = len(self.effects)
        v = self.exec_function(fi.node, fi.mod, fi.cls, vals, st, qual=fi.qual, selfterm=vals.get(names[0]) if is_method and names else None)
        return Result(v, st, self.effects[n0:], list(self.raises), self)

    def exec_function(self, fn, mod, cls, env, st, qual="", selfterm=None, parent=None, node=None):
        """Runs a function body in state st (mutated); returns the merged return value. Raised outcomes go to self.raises."""
        self.nfid += 1
        fr = Frame(self.nfid, fn, mod, cls, parent, qual)
        fr.selfterm = selfterm
        self.frameinfo[fr.fid] = fr
        if isinstance(node, ast.Call) and not isinstance(fn, ast.Lambda):
            ps = [x.arg for x in fn.args.posonlyargs + fn.args.args]
            off = 1 if selfterm is not None and ps else 0
            for x, e in zip(ps[off:], node.args):
                fr.origin[x] = self.origin(e)
            for k in node.keywords:
                fr.origin[k.arg] = self.origin(k.value)
        self.visited.add(qual)
        st.frames[fr.fid] = dict(env)
        self.frames.append(fr)
        pc0 = st.pc
        try:
            if isinstance(fn, ast.Lambda):
                return self.eval(fn.body, st)
            is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fn))
            if is_gen:
                fr.yields = self.new_ref("#list")
                st.heap[(fr.yields, "#v")] = T("list")
            out = []
            alive = self.exec_block(fn.body, st, out)
            rets = [o for o in out if o.kind == "return"]
            if alive:
                rets.append(Outcome("return", NONE, st.fork()))
            if not rets:
                st.pc = FALSE
                return T("bottom")
            if is_gen:
                for o in rets:
                    o.value = fr.yields
            v, merged = self.merge_outcomes(rets, pc0)
            st.become(merged)
            return v
        finally:
            self.frames.pop()

    def rel(self, pc, base):
        b = conjuncts(base)
        return land(*[x for x in conjuncts(pc) if x not in b])

    def merge_outcomes(self, outs, base):
        if len(outs) == 1:
            return outs[0].value, outs[0].st
        v, s = outs[-1].value, outs[-1].st
        for o in reversed(outs[:-1]):
            c = self.rel(o.st.pc, base)
            # outcomes are exclusive: drop what is implied by not being later ones
            v = ite_obj(c, o.value, v)
            s = self.merge2(c, o.st, s, base)
        return v, s

    def merge2(self, c, a, b, base=TRUE):
        r = State()
        r.pc = lor(a.pc, b.pc)
        if c.op == "not":
            c, a, b = c.args[0], b, a
        for f in set(a.frames) | set(b.frames):
            ea, eb = a.frames.get(f), b.frames.get(f)
            if ea is None or eb is None:
                r.frames[f] = dict(ea or eb)
                continue
            e = {}
            for k in list(ea) + [k for k in eb if k not in ea]:
                x, y = ea.get(k), eb.get(k)
                if x is None:
                    e[k] = y
                elif y is None:
                    e[k] = x
                else:
                    e[k] = ite_obj(c, x, y)
            r.frames[f] = e
        keys = list(a.heap) + [k for k in b.heap if k not in a.heap]
        for k in keys:
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                r.heap[k] = x
                continue
            if x is None:
                x = self.default_heap(k, a)
            if y is None:
                y = self.default_heap(k, b)
            if x is None or y is None:
                r.heap[k] = x if y is None else y
            else:
                r.heap[k] = ite_obj(c, x, y)
        return r

    def default_heap(self, k, st):
        obj, key = k
        v = self.base_heap.get(k)
        if v is not None:
            return v
        if key == "#ver":
            return T("ver0")
        if obj.op == "ref":
            if isinstance(key, str) and not key.startswith("#") and not obj.args[1].startswith("#"):
                r = self.ix.find_attr(obj.args[1], key) if obj.args[1] in self.ix.classes else None
                if r is not None and r[1][0] is not None:
                    return self.class_attr(r[0], key)
            return None
        ver = self.hget(st, obj, "#ver")
        if isinstance(key, str):
            if key.startswith("#"):
                return None
            return mkattr(obj, key, ver)
        if key[0] == "item":
            return mkitem(obj, key[1], ver)
        return None

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, out):
        for s in stmts:
            self.steps += 1
            if self.steps > self.maxsteps:
                raise RuntimeError("analysis budget exceeded in " + (self.cur().qual if self.cur() else "?"))
            if st.pc is FALSE:
                return False
            if not self.exec_stmt(s, st, out):
                return False
        return st.pc is not FALSE

    def exec_stmt(self, s, st, out):
        k = type(s).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.note(f"unsupported statement {k}")
            return True
        return m(s, st, out)

    def s_Pass(self, s, st, out):
        return True

    s_Import = s_Global = s_Pass

    def s_Nonlocal(self, s, st, out):
        self.cur().nonlocals |= set(s.names)
        return True

    def s_ImportFrom(self, s, st, out):
        fr = self.cur()
        am = self.ix._absmod(fr.mod, s.level, s.module)
        for a in s.names:
            r = self.ix.lookup(am, a.name) if am in self.ix.modules else ("ext", f"{am}.{a.name}")
            st.frames[fr.fid][a.asname or a.name] = self.resolved(r) if r else T("ext", f"{am}.{a.name}")
        return True

    def s_Import(self, s, st, out):
        fr = self.cur()
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            st.frames[fr.fid][nm] = T("mod", a.name if a.asname else nm)
        return True

    def s_Expr(self, s, st, out):
        if isinstance(s.value, ast.Constant):
            return True
        self.eval(s.value, st)
        return st.pc is not FALSE

    def s_Return(self, s, st, out):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if st.pc is FALSE:
            return False
        out.append(Outcome("return", v, st.fork(), s.lineno))
        return False

    def s_Raise(self, s, st, out):
        v = self.eval(s.exc, st) if s.exc is not None else T("reraise")
        if st.pc is FALSE:
            return False
        self.effect("raise", st, s, value=v)
        self.raises.append(Outcome("raise", v, st.fork(), s.lineno))
        return False

    def s_Assert(self, s, st, out):
        c = self.cond(s.test, st)
        self.effect("assert", st, s, value=c)
        if self.strict:
            r = ast.copy_location(ast.Raise(exc=ast.copy_location(ast.Name("AssertionError", ast.Load()), s), cause=None), s)
            return self.branch_blocks(c, [], [r], st, out)
        return True

    def s_Break(self, s, st, out):
        out.append(Outcome("break", None, st.fork()))
        return False

    def s_Continue(self, s, st, out):
        out.append(Outcome("continue", None, st.fork()))
        return False

    def s_FunctionDef(self, s, st, out):
        fr = self.cur()
        cid = len(self.closures) + 1
        self.closures[cid] = (s, fr)
        self.bind_name(s.name, T("closure", cid), st)
        return True

    def s_ClassDef(self, s, st, out):
        self.bind_name(s.name, T("localclass", s.name), st)
        return True

    def s_Assign(self, s, st, out):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.note_origin(t, s.value)
            self.assign(t, v, st, s)
        return st.pc is not FALSE

    def s_AnnAssign(self, s, st, out):
        if s.value is None:
            return True
        v = self.eval(s.value, st)
        if v not in self.types and v.op not in ("const", "ref", "ite", "arr", "tuple"):
            ty = self.ty.ann(self.cur().mod, s.annotation)
            if ty is not None and ty.name != "Any":
                self.types[v] = ty
        self.note_origin(s.target, s.value)
        self.assign(s.target, v, st, s)
        return st.pc is not FALSE

    def s_AugAssign(self, s, st, out):
        tgt = s.target
        load = ast.copy_location(ast.parse(ast.unparse(tgt), mode="eval").body, tgt)
        ast.fix_missing_locations(load)
        cur = self.eval(load, st)
        v = self.eval(s.value, st)
        iname = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__"}.get(type(s.op).__name__)
        # in-place list extension keeps the object
        if cur.op == "ref" and cur.args[1] in ("#list",) and isinstance(s.op, ast.Add):
            self.list_extend(cur, v, st, s)
            return True
        if cur.op == "ite" and isinstance(s.op, ast.Add) and all(x.op == "ref" and x.args[1] == "#list" for x in branches(cur)):
            self.call(self.getattr(cur, "extend", st, s), (v,), (), st, s)
            return st.pc is not FALSE
        if iname and isinstance(tgt, ast.Attribute) and isinstance(s.op, ast.Add) and (self.typeof(cur) or Ty("")).name in ("list", "List"):
            self.mutate_symbolic(cur, "extend", (v,), (), st, s)
            return True
        r = self.binop(type(s.op).__name__, cur, v, st, s)
        if isinstance(tgt, ast.Name) and is_array(cur):
            self.inplace(tgt.id, cur, r, st)
        self.assign(tgt, r, st, s)
        return st.pc is not FALSE

    def inplace(self, name, cur, new, st):
        """The array `cur`, held by local `name`, was modified in place: everybody else holding that array sees it too."""
        fr = self.cur()
        alias = fr.origin.get(name, "alias") == "alias"
        const_like = not contains(cur, lambda t: t.op in ("var", "attr", "mcall", "call", "elem", "item"))
        cs = self.frames[-2:] if const_like else self.frames
        live = {f.fid: f for f in cs if f.fid in st.frames}

        def upd(v):
            if v is cur:
                return new
            if v.op in ("tuple", "list", "dict"):
                a = tuple(upd(x) if isinstance(x, T) else tuple(upd(y) for y in x) if isinstance(x, tuple) else x for x in v.args)
                return v if all(p is q for p, q in zip(a, v.args)) else T(v.op, *a)
            return v
        for fid, f in live.items():
            env = st.frames[fid]
            for k, v in list(env.items()):
                if f is fr and (k == name or not alias and f.origin.get(k) != "alias"):
                    continue
                if f is not fr and not alias:
                    continue
                if f.origin.get(k) != "copy" and isinstance(v, T):
                    env[k] = upd(v)
        if alias and not const_like:
            for k, v in list(st.heap.items()):
                if isinstance(v, T):
                    n = upd(v)
                    if n is not v:
                        st.heap[k] = n

    def origin(self, e):
        """Whether the value of expression e may be an object that somebody else holds ('alias'), is fresh ('own') or a copy."""
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Starred, ast.NamedExpr)):
            return "alias"
        if isinstance(e, ast.IfExp):
            k = {self.origin(e.body), self.origin(e.orelse)}
            return "alias" if "alias" in k else "own"
        if isinstance(e, ast.Call):
            f = e.func
            n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            return "alias" if n in ("asarray", "cast") else "copy" if n in ("copy", "array", "deepcopy", "astype") else "own"
        return "copy"

    def note_origin(self, t, e):
        fr = self.cur()
        if fr is None:
            return
        if isinstance(t, ast.Name):
            fr.origin[t.id] = self.origin(e)
        elif isinstance(t, (ast.Tuple, ast.List)):
            same = isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == len(t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Name):
                    fr.origin[x.id] = self.origin(e.elts[i]) if same else "own" if isinstance(e, ast.Call) else "alias"

    def s_Delete(self, s, st, out):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                self.mutate_symbolic(o, "__delitem__", (k,), (), st, s)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                self.effect("store", st, s, target=o, name=t.attr, value=T("deleted"))
        return True

    def s_If(self, s, st, out):
        c = self.cond(s.test, st)
        return self.branch_blocks(c, s.body, s.orelse, st, out)

    def branch_blocks(self, c, body, orelse, st, out):
        c = self.simp(c, st.pc)
        k = truthy_const(c)
        if k is True:
            return self.exec_block(body, st, out)
        if k is False:
            return self.exec_block(orelse, st, out)
        a, b = st.fork(), st.fork()
        a.pc, b.pc = land(st.pc, c), land(st.pc, lnot(c))
        la = a.pc is not FALSE and self.exec_block(body, a, out)
        lb = b.pc is not FALSE and self.exec_block(orelse, b, out)
        if la and lb:
            st.become(self.merge2(c, a, b, st.pc))
        elif la:
            st.become(a)
        elif lb:
            st.become(b)
        else:
            st.pc = FALSE
            return False
        return True

    def simp(self, c, pc):
        """Simplify a condition under the path condition."""
        cj = conjuncts(pc)
        if not cj:
            return c
        pos = set(cj)
        neg = {lnot(x) for x in cj}
        for x in cj:
            if x.op == "not" and x.args[0].op == "or":
                neg |= set(x.args[0].args)
        for x in list(cj):
            if x.op == "not" and x.args[0].op == "or":
                pos |= {lnot(y) for y in x.args[0].args}

        def f(x):
            if x in pos:
                return TRUE
            if x in neg:
                return FALSE
            if x.op in ("and", "or", "not"):
                return None
            return x
        return rebuild_td(c, f)

    def s_With(self, s, st, out):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, T("fn", "enter", v), st, s)
        return self.exec_block(s.body, st, out)

    def s_Try(self, s, st, out):
        pre = st.fork()
        n_r = len(self.raises)
        n_e = len(self.effects)
        body_out = []
        catches = any(set(self.exc_names(h.type)) & {"AttributeError", "Exception", "BaseException"} for h in s.handlers)
        self.try_attr += catches
        alive = self.exec_block(s.body, st, body_out)
        self.try_attr -= catches
        pend = self.raises[n_r:]
        del self.raises[n_r:]
        calls = [e for e in self.effects[n_e:] if e.kind == "call" and e.value is not None]
        ends = []      # (state) alive states after the statement
        base = pre.pc
        handled_atoms = []
        handlers = []
        for h in s.handlers:
            names = self.exc_names(h.type)
            key = calls[0].value if calls else T("tryblock", id(s) and s.lineno)
            atom = T("raised", tuple(names), key)
            entry = []
            rest = []
            for o in pend:
                if self.exc_matches(o.value, names):
                    entry.append(o.st)
                else:
                    rest.append(o)
            pend = rest
            if calls:
                sp = pre.fork()
                sp.pc = land(pre.pc, atom)
                entry.append(sp)
                handled_atoms.append(atom)
            handlers.append((h, entry))
        # body continues only when nothing was raised
        nr = land(*[lnot(a) for a in handled_atoms])
        for e in self.effects[n_e:]:
            pass
        states = []
        if alive:
            st.pc = land(st.pc, nr)
            ok = True
            if s.orelse:
                ok = self.exec_block(s.orelse, st, out)
            if ok:
                states.append(st.fork())
        for o in body_out:
            o.st.pc = land(o.st.pc, nr)
            out.append(o)
        for h, entry in handlers:
            for es in entry:
                if h.name:
                    es.frames[self.cur().fid][h.name] = T("caught", tuple(self.exc_names(h.type)))
                if self.exec_block(h.body, es, out):
                    states.append(es)
        self.raises.extend(pend)
        if not states:
            st.pc = FALSE
            if s.finalbody:
                f = pre.fork()
                self.exec_block(s.finalbody, f, out)
            return False
        m = states[-1]
        for x in reversed(states[:-1]):
            m = self.merge2(self.rel(x.pc, base), x, m, base)
        st.become(m)
        if s.finalbody:
            return self.exec_block(s.finalbody, st, out)
        return True

    def exc_names(self, t):
        if t is None:
            return ["BaseException"]
        if isinstance(t, ast.Tuple):
            return [n for e in t.elts for n in self.exc_names(e)]
        return [ast.unparse(t).split(".")[-1]]

    def exc_matches(self, v, names):
        if "Exception" in names or "BaseException" in names:
            return True
        q = None
        if v.op == "ref":
            q = v.args[1]
        elif v.op == "cls":
            q = v.args[0]
        elif v.op == "call" and isinstance(v.args[0], str):
            q = v.args[0]
        elif v.op == "ext":
            q = v.args[0]
        if q is None:
            return False
        if q in self.ix.classes:
            return any(c.split(".")[-1] in names for c in self.ix.mro(q)) or any(b.split(".")[-1] in names for b in self.ix.ext_bases(q))
        return q.split(".")[-1] in names

    # ------------------------------------------------------------------ assignment
    def bind_name(self, name, v, st):
        fr = self.cur()
        if name in fr.nonlocals and fr.parent is not None:
            p = fr.parent
            while p is not None and name not in st.frames.get(p.fid, {}):
                p = p.parent
            if p is not None:
                st.frames[p.fid][name] = v
                return
        st.frames[fr.fid][name] = v

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts)
                c = self.content(v, st)
                if c is not None and c.op in ("tuple", "list"):
                    xs = c.args
                    tail = n - 1 - i
                    for e, x in zip(t.elts[:i], xs[:i]):
                        self.assign(e, x, st, node)
                    mid = xs[i:len(xs) - tail]
                    self.assign(t.elts[i].value, self.mk_list(mid, st), st, node)
                    for e, x in zip(t.elts[i + 1:], xs[len(xs) - tail:]):
                        self.assign(e, x, st, node)
                else:
                    for j, e in enumerate(t.elts):
                        if j < i:
                            self.assign(e, self.getitem(v, const(j), st), st, node)
                        elif j == i:
                            self.assign(e.value, T("fn", "rest", v, const(i), const(n - 1 - i)), st, node)
                        else:
                            self.assign(e, self.getitem(v, const(j - n), st), st, node)
                return
            for j, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, const(j), st), st, node)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            q = self.clsof(o)
            if q in self.ix.classes and self.ix.frozen(q) and st.pc is not FALSE:
                self.raises.append(Outcome("raise", T("call", "dataclasses.FrozenInstanceError", (), ()), st.fork(), node.lineno))
                st.pc = FALSE
                return
            self.setattr(o, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            self.setitem(o, k, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        else:
            self.note("unsupported assignment target")

    def setattr(self, o, name, v, st, node):
        if o.op == "ite":
            c = o.args[0]
            for cc, b in ((c, o.args[1]), (lnot(c), o.args[2])):
                old = self.getattr(b, name, st, node)
                s2 = st.pc
                st.pc = land(st.pc, cc)
                self.setattr(b, name, ite_obj(cc, v, old), st, node)
                st.pc = s2
            return
        # property setter
        q = self.clsof(o)
        if q:
            for c in self.ix.mro(q):
                if name in self.ix.classes[c].setters:
                    ci = self.ix.classes[c]
                    fn = ci.setters[name]
                    self.effect("store", st, node, target=o, name=name, value=v)
                    a = [x.arg for x in fn.args.args]
                    self.exec_function(fn, ci.mod, ci, {a[0]: o, a[1]: v}, st, qual=c + "." + name, selfterm=o)
                    return
        st.heap[(o, name)] = v
        self.effect("store", st, node, target=o, name=name, value=v)

    def setitem(self, o, k, v, st, node):
        if o.op == "ite":
            c = o.args[0]
            for cc, b in ((c, o.args[1]), (lnot(c), o.args[2])):
                s2 = st.pc
                st.pc = land(st.pc, cc)
                old = self.getitem(b, k, st)
                self.setitem(b, k, ite_obj(cc, v, old), st, node)
                st.pc = s2
            return
        q = self.clsof(o)
        if q and q in self.ix.classes:
            m = self.ix.find_method(q, "__setitem__")
            if m:
                self.effect("setitem", st, node, target=o, name=k, value=v)
                st.heap[(o, ("item", k))] = v
                return
        cont = self.hget(st, o, "#v")
        self.effect("setitem", st, node, target=o, name=k, value=v)
        if cont is not None:
            st.heap[(o, "#v")] = dset(cont, k, v)
        elif o.op == "arr":
            self.array_store(o, k, v, st, node)
        else:
            st.heap[(o, ("item", k))] = v

    def array_store(self, o, k, v, st, node):
        base = None
        for t in getattr(node, "targets", None) or [getattr(node, "target", None)]:
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                base = t.value.id
        new = None
        if isconst(k) and isinstance(k.args[0], int) and -len(o.args) <= k.args[0] < len(o.args):
            a = list(o.args)
            a[k.args[0]] = v
            new = T("arr", *a)
        if new is None or base is None:
            self.note("array item store")
            new = T("fn", "stored", o, k, v)
        if base is not None:
            self.inplace(base, o, new, st)
            self.bind_name(base, new, st)

    # ------------------------------------------------------------------ names
    def lookup_name(self, name, st):
        fr = self.cur()
        f = fr
        while f is not None:
            e = st.frames.get(f.fid)
            if e is not None and name in e:
                return e[name]
            f = f.parent
        r = self.ix.lookup(fr.mod.name, name)
        if r is None:
            return T("ext", "builtins." + name)
        return self.resolved(r)

    def resolved(self, r):
        k = r[0]
        if k == "func":
            return T("func", r[1])
        if k == "class":
            return T("cls", r[1])
        if k == "mod":
            return T("mod", r[1])
        if k == "ext":
            return self.ext(r[1])
        if k == "global":
            return self.global_value(r[1], r[2])

    def ext(self, q):
        if q in ("math.pi", "numpy.pi"):
            return T("fn", "pi")
        if q in ("math.inf", "numpy.inf"):
            return const(float("inf"))
        return T("ext", q)

    def global_value(self, m, name):
        key = (m.name, name)
        if key in self.memo_globals:
            return self.memo_globals[key]
        self.memo_globals[key] = T("global", m.name + "." + name)
        v = self.eval_static(m, m.defs[name][1], None)
        if v.op not in ("const", "ref", "cls", "func", "ext", "tuple", "fn", "arr", "ite", "neg", "mod", "newtype", "closure"):
            v = T("global", m.name + "." + name)
            ty = self.ty.ann(m, m.defs[name][2])
            if ty:
                self.types[v] = ty
        self.memo_globals[key] = v
        return v

    def eval_static(self, m, node, cls):
        """Evaluate a module- or class-level expression; its objects live in the base heap."""
        if node is None:
            return NONE
        st = State()
        self.nfid += 1
        fr = Frame(self.nfid, None, m, cls, None, m.name + ".<module>")
        st.frames[fr.fid] = {}
        self.frames.append(fr)
        saved = (self.effects, self.loops, self.raises)
        self.effects, self.loops, self.raises = [], [], []
        try:
            if cls is not None:
                f2 = st.frames[fr.fid]
                for an, (vn, _) in cls.attrs.items():
                    if vn is node:
                        break
                    if isinstance(vn, ast.Constant):
                        f2[an] = const(vn.value)
            v = self.eval(node, st)
        finally:
            self.effects, self.loops, self.raises = saved
            self.frames.pop()
        self.base_heap.update(st.heap)
        return v

    def class_attr(self, ci, name):
        key = (ci.qual, name)
        if key not in self.memo_clsattr:
            self.memo_clsattr[key] = T("clsattr", ci.qual, name)
            vn = ci.attrs[name][0]
            if isinstance(vn, ast.Call) and _fname(vn.func) == "field":
                v = T("fieldspec", ci.qual, name)
            else:
                v = self.eval_static(ci.mod, vn, ci)
            if any("Enum" in b for b in self.ix.ext_bases(ci.qual)):
                v = T("enum", ci.qual, name)
            self.memo_clsattr[key] = v
        return self.memo_clsattr[key]


def is_array(t):
    if t.op == "arr":
        return True
    if t.op in ("add", "sub", "mul", "div", "neg"):
        return any(is_array(a) for a in t.args)
    if t.op == "ite":
        return is_array(t.args[1]) or is_array(t.args[2])
    return False


def _fname(f):
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)


def walk_own(fn):
    """ast.walk that does not enter nested functions."""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def ite_obj(c, a, b):
    return ite(c, a, b)


def mkattr(o, name, ver=None):
    return T("attr", o, name) if ver is None or ver.op == "ver0" else T("attr", o, name, ver)


def mkitem(o, k, ver=None):
    return T("item", o, k) if ver is None or ver.op == "ver0" else T("item", o, k, ver)


def one_dict(c):
    """a choice between dictionaries with the same keys as one dictionary of choices"""
    if c.op == "dict":
        return c
    if c.op != "ite":
        return None
    a, b = one_dict(c.args[1]), one_dict(c.args[2])
    if a is None or b is None or [k for k, _ in a.args] != [k for k, _ in b.args]:
        return None
    return T("dict", *((k, ite(c.args[0], x, y)) for (k, x), (_, y) in zip(a.args, b.args)))


def dset(cont, k, v):
    if cont.op == "ite":
        cont = one_dict(cont) or cont
    if cont.op == "dict":
        items = list(cont.args)
        for i, (kk, vv) in enumerate(items):
            if kk is k:
                items[i] = (k, v)
                return T("dict", *items)
        if all(isconst(kk) for kk, _ in items) and isconst(k):
            return T("dict", *(items + [(k, v)]))
        if not items:
            return T("dict", (k, v))
    if cont.op == "list" and isconst(k) and isinstance(k.args[0], int) and -len(cont.args) <= k.args[0] < len(cont.args):
        xs = list(cont.args)
        xs[k.args[0]] = v
        return T("list", *xs)
    return T("dset", cont, k, v)


def branches(t):
    return branches(t.args[1]) + branches(t.args[2]) if t.op == "ite" else [t]
