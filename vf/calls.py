"""Expression evaluation, attribute access and calls of the abstract interpreter."""
import ast
import math
from fractions import Fraction
from .terms import *
from .types import Ty, decos, item_type, elem_type, MAPPINGS
from .index import FuncInfo

SCALARS = {"int", "float", "str", "bool", "Decimal", "complex", "bytes"}
MATH = {}
for _m, _names in {
    "math": "cos sin tan atan atan2 acos asin sqrt fabs exp log floor ceil hypot degrees radians pow isclose copysign isnan cosh sinh tanh dist fmod",
    "numpy": "cos sin tan arctan arctan2 arccos arcsin sqrt abs absolute exp log floor ceil hypot deg2rad rad2deg degrees radians power isclose sign clip minimum maximum dot cross "
             "linalg.norm linalg.inv allclose isnan isfinite all any sum mean min max cumsum diff trapz argmin argmax argsort sort unique arange linspace zeros ones vstack hstack concatenate append array asarray "
             "float64 float32 int64 round mod sinc array_equal interp searchsorted square fmin fmax copysign outer matmul multiply add subtract divide negative stack column_stack empty eye identity squeeze ravel reshape transpose fabs"}.items():
    for _n in _names.split():
        MATH[f"{_m}.{_n}"] = _n
_ALIAS = {"arctan": "atan", "arctan2": "atan2", "arccos": "acos", "arcsin": "asin", "fabs": "abs", "absolute": "abs",
          "power": "pow", "deg2rad": "radians", "rad2deg": "degrees", "minimum": "min", "maximum": "max", "fmin": "min", "fmax": "max",
          "linalg.norm": "norm", "linalg.inv": "inv", "asarray": "array", "multiply": "mul", "add": "add", "subtract": "sub", "divide": "div",
          "negative": "neg", "matmul": "matmul"}
IMPURE_EXT = ("time.", "random.", "numpy.random", "uuid.", "secrets.", "os.urandom", "datetime.")
MUTATORS = {"append", "extend", "add", "update", "pop", "remove", "clear", "insert", "setdefault", "popitem", "discard", "sort", "reverse",
            "set_velocity", "set_state", "__setitem__", "__delitem__", "on_episode_init", "get_commands", "sense", "__setattr__",
            "update_reference", "update_measurement", "move_to", "rotate", "scale", "move", "resize", "fill", "write"}
PURE_PREFIX = ("get_", "is_", "as_", "has_", "to_", "from_", "at_", "find_", "compute_", "intersect", "contains", "query", "evaluate")


CLOCKS = {"time.perf_counter", "time.time", "time.process_time", "time.monotonic", "time.perf_counter_ns", "time.time_ns"}


SET_METHODS = {"issubset": None, "issuperset": None, "isdisjoint": None, "union": "bitor", "difference": "sub", "intersection": "bitand", "symmetric_difference": "bitxor"}


class CallMixin:
    # ------------------------------------------------------------------ conditions
    def cond(self, n, st):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            acc = []
            pc0 = st.pc
            for v in n.values:
                c = self.cond(v, st)
                acc.append(c)
                st.pc = land(st.pc, c if isand else lnot(c))
                if st.pc is FALSE:
                    break
            st.pc = pc0
            return land(*acc) if isand else lor(*acc)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return lnot(self.cond(n.operand, st))
        if isinstance(n, ast.IfExp):
            c = self.cond(n.test, st)
            return lor(land(c, self.cond(n.body, st)), land(lnot(c), self.cond(n.orelse, st)))
        return self.truth(self.eval(n, st), st)

    def truth(self, t, st):
        if t.op == "const":
            return const(bool(t.args[0]))
        if t.op in ("cmp", "and", "or", "not", "any", "raised"):
            return t
        if t.op == "ite":
            c = t.args[0]
            return lor(land(c, self.truth(t.args[1], st)), land(lnot(c), self.truth(t.args[2], st)))
        if t.op == "ref":
            v = self.hget(st, t, "#v")
            if v is not None:
                if v.op in ("list", "dict", "set"):
                    return const(len(v.args) > 0)
                if v.op == "comp":
                    return T("any", v.args[2], v.args[1], v.args[3])
                return T("nonempty", v)
            q = t.args[1]
            if q in self.ix.classes and not self.ix.find_method(q, "__bool__") and not self.ix.find_method(q, "__len__"):
                return TRUE
            if q in self.ix.classes:
                m = self.ix.find_method(q, "__bool__") or self.ix.find_method(q, "__len__")
                return self.truth(self.call_method(t, m, (), (), st, None), st)
        if t.op in ("list", "tuple", "dict", "set"):
            return const(len(t.args) > 0)
        if t.op == "fn" and t.args[0] in ("bool", "list", "tuple") and len(t.args) == 2:
            return self.truth(t.args[1], st)
        if t.op == "fn" and t.args[0] == "len":
            return self.truth(t.args[1], st)
        if t.op == "mcall" and t.args[1] in ("keys", "values", "items") and not t.args[2]:
            return t.args[0]
        q = self.clsof(t)
        if q is not None and self.always_true(q):
            return lnot(self.compare("Is", NONE, t, st))
        return t

    def always_true(self, q):
        """instances of this class (or a subclass) define no truth value of their own"""
        if q not in self._truthy:
            qs = [q, *self.ix.subclasses(q)]
            self._truthy[q] = not any(self.ix.find_method(k, m) for k in qs for m in ("__bool__", "__len__")) and \
                all(b.split("[")[0].split(".")[-1] in ("ABC", "Generic", "object") for k in qs for b in self.ix.ext_bases(k))
        return self._truthy[q]

    def const_set(self, t, st):
        """the elements of a set whose elements are all constants"""
        c = t if t.op == "set" else self.content(t, st) if t.op == "ref" and t.args[1] == "#set" else None
        return {x.args[0] for x in c.args} if c is not None and c.op == "set" and all(isinstance(x, T) and x.op == "const" for x in c.args) else None

    def ext_member(self, t):
        """a member of an external enumeration"""
        return t.op == "ext" and t.args[0].rpartition(".")[0] in self.ext_enums

    def compare(self, op, a, b, st):
        k = type(op).__name__ if not isinstance(op, str) else op
        if k == "NotEq":
            return lnot(self.compare("Eq", a, b, st))
        if k in ("Eq", "Lt", "LtE", "Gt", "GtE"):
            x, y = self.const_set(a, st), self.const_set(b, st)
            if x is not None and y is not None:
                return const({"Eq": x == y, "Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[k])
        if k == "NotIn":
            return lnot(self.compare("In", a, b, st))
        if k == "IsNot":
            return lnot(self.compare("Is", a, b, st))
        if k == "Gt":
            return self.compare("Lt", b, a, st)
        if k == "GtE":
            return lnot(self.compare("Lt", a, b, st))
        if k == "LtE":
            return lnot(self.compare("Lt", b, a, st))
        if a.op == "ite" and k in ("Is", "Eq") and (b.op == "const" or isconst(a.args[1]) or isconst(a.args[2])):
            c = a.args[0]
            return lor(land(c, self.compare(k, a.args[1], b, st)), land(lnot(c), self.compare(k, a.args[2], b, st)))
        if b.op == "ite" and k in ("Is", "Eq") and a.op == "const":
            return self.compare(k, b, a, st)
        if k in ("Lt", "Eq") and (a.op == "ite" or b.op == "ite" or a.op in CHOICE_OPS or b.op in CHOICE_OPS):
            x, y = choice(a), choice(b)
            r = choice_cmp(k, x, y) if x is not None and y is not None else None
            if r is not None:
                return r
        if k == "Lt":
            if isconst(a) and isconst(b):
                try:
                    return const(a.args[0] < b.args[0])
                except TypeError:
                    pass
            # len(x) > 0
            if isconst(a, 0) and b.op == "fn" and b.args[0] == "len":
                return self.truth(b, st)
            if isconst(b, 1) and a.op == "fn" and a.args[0] == "len":
                return lnot(self.truth(a, st))
            return T("cmp", "lt", a, b)
        if k == "Eq" and not (a in (TRUE, FALSE) and is_bool(b) or b in (TRUE, FALSE) and is_bool(a)):
            if a is b:
                return TRUE
            if isconst(a) and isconst(b):
                return const(a.args[0] == b.args[0])
            if a.op in ("cls", "ext") and b.op in ("cls", "ext") and (a.op == b.op == "cls" or all(x.op == "cls" or x.args[0].split(".")[-1] in SCALARS for x in (a, b))):
                return const(a is b)
            if a.op in ("enum",) and b.op == "enum" or self.ext_member(a) and self.ext_member(b):
                return const(a is b)
            if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
                return land(*[self.compare("Eq", x, y, st) for x, y in zip(a.args, b.args)])
            if a.op == "ref" and b.op == "ref" and a.args[1] == b.args[1] == "#list":
                x, y = self.content(a, st), self.content(b, st)
                if all(z is not None and z.op == "list" and all(isinstance(e, T) and e.op == "const" for e in z.args) for z in (x, y)):
                    return const([e.args[0] for e in x.args] == [e.args[0] for e in y.args])
            for x, y in ((a, b), (b, a)):
                if isconst(x, 0) and y.op == "fn" and y.args[0] == "len":
                    return lnot(self.truth(y, st))
                if x.op == "const" and isinstance(x.args[0], (str, bool, type(None))) and y.op in ("list", "tuple", "dict", "set"):
                    return FALSE
            if a.op == "ref" and self.clsof(a):
                m = self.ix.find_method(a.args[1], "__eq__")
                if m:
                    return self.truth(self.call_method(a, m, (b,), (), st, None), st)
            x, y = sorted((a, b), key=lambda t: t.uid)
            return T("cmp", "eq", x, y)
        if k in ("Is", "Eq"):
            for x, y in ((a, b), (b, a)):
                if x in (TRUE, FALSE) and is_bool(y):
                    return y if x is TRUE else lnot(y)
                if k == "Is" and y.op == "ite" and (isconst(x) or x in y.args[1:]):
                    return ite(y.args[0], self.compare("Is", x, y.args[1], st), self.compare("Is", x, y.args[2], st))
        if k == "Is":
            if a is b:
                return TRUE
            if isconst(a) and isconst(b):
                return const(a.args[0] is b.args[0])
            for x, y in ((a, b), (b, a)):
                if isconst(x, None) and (self.scalar(y) or y in self.ext_types):
                    return FALSE
                if isconst(x, None) and (y.op in ("ref", "cls", "func", "closure", "list", "tuple", "dict", "arr", "bound", "add", "mul", "sub") or y.op == "fn" and y.args[0] in ("affine", "SE2")):
                    return FALSE
            if a.op in ("cls", "ext") and b.op in ("cls", "ext") and (a.op == b.op == "cls" or all(x.op == "cls" or x.args[0].split(".")[-1] in SCALARS for x in (a, b))):
                return const(a is b)
            if self.ext_member(a) and self.ext_member(b):
                return const(a is b)
            x, y = sorted((a, b), key=lambda t: t.uid)
            return T("cmp", "is", x, y)
        if k == "In":
            if b.op == "mcall" and b.args[1] == "keys":
                b = b.args[0]
            if b.op == "fn" and b.args[0] in ("list", "tuple", "set", "frozenset", "sorted") and len(b.args) == 2:
                b = b.args[1]
            c = self.content(b, st) if b.op == "ref" else b
            if c is not None and c.op == "ite" and literal_choice(c):
                return lor(land(c.args[0], self.compare("In", a, c.args[1], st)), land(lnot(c.args[0]), self.compare("In", a, c.args[2], st)))
            c = self.content(b, st)
            if c is not None and c.op in ("list", "tuple", "set"):
                return lor(*[land(e.args[0], self.compare("Eq", a, e.args[1], st)) if e.op == "guarded" else
                             self.compare("In", a, e.args[0], st) if e.op in ("spread", "star") else self.compare("Eq", a, e, st) for e in c.args])
            ps = guarded_pairs(c)
            if ps is not None:
                return lor(*[land(g, self.compare("Eq", a, k2, st)) for g, k2, _ in ps])
            if c is not None and c.op == "dict":
                return lor(*[self.compare("Eq", a, e[0], st) for e in c.args])
            if c is not None:
                b = c
            return T("cmp", "in", a, b)
        return T("cmp", k, a, b)

    # ------------------------------------------------------------------ eval
    def eval(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.note(f"unsupported expression {type(n).__name__}")
            return T("opaque", ast.dump(n)[:60])
        return m(n, st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        return self.lookup_name(n.id, st)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_BoolOp(self, n, st):
        # value semantics
        vals = []
        isand = isinstance(n.op, ast.And)
        pc0 = st.pc
        res = None
        for i, v in enumerate(n.values):
            x = self.eval(v, st)
            c = self.truth(x, st)
            vals.append((x, c))
            if i < len(n.values) - 1:
                st.pc = land(st.pc, c if isand else lnot(c))
        st.pc = pc0
        res = vals[-1][0]
        for x, c in reversed(vals[:-1]):
            ty = self.typeof(x)
            xb = c if is_bool(x) or x.op in ("cmp", "and", "or", "not", "any") or ty is not None and ty.name == "bool" else None
            if isand:
                res = ite(c, res, x if xb is None else FALSE)
            else:
                res = ite(c, x if xb is None else TRUE, res)
        return res

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return lnot(self.cond(n.operand, st))
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.USub):
            return self.neg(v, st)
        return v

    def neg(self, v, st):
        if isconst(v) and isinstance(v.args[0], (int, float)):
            return const(-v.args[0])
        if v.op == "arr":
            return T("arr", *[self.neg(x, st) for x in v.args])
        if v.op == "ite":
            return ite(v.args[0], self.neg(v.args[1], st), self.neg(v.args[2], st))
        q = self.clsof(v)
        if q:
            m = self.ix.find_method(q, "__neg__")
            if m:
                return self.call_method(v, m, (), (), st, None)
        return T("neg", v)

    def e_Compare(self, n, st):
        l = self.eval(n.left, st)
        cs = []
        for op, r in zip(n.ops, n.comparators):
            rv = self.eval(r, st)
            cs.append(self.compare(op, l, rv, st))
            l = rv
        return land(*cs)

    def e_IfExp(self, n, st):
        c = self.simp(self.cond(n.test, st), st.pc)
        k = truthy_const(c)
        if k is not None:
            return self.eval(n.body if k else n.orelse, st)
        a, b = st.fork(), st.fork()
        a.pc, b.pc = land(st.pc, c), land(st.pc, lnot(c))
        if a.pc is FALSE:
            return self.eval(n.orelse, st)
        if b.pc is FALSE:
            return self.eval(n.body, st)
        x, y = self.eval(n.body, a), self.eval(n.orelse, b)
        st.become(self.merge2(c, a, b, st.pc))
        return ite(c, x, y)

    def e_Tuple(self, n, st):
        return T("tuple", *self.elts(n.elts, st))

    def spread(self, v, st):
        """content of an unpacked value; tuples of declared length are unpacked item by item"""
        c = self.content(v, st)
        if c is None:
            ty = self.typeof(v)
            if ty is not None and ty.name in ("tuple", "Tuple") and ty.args and all(a is not None for a in ty.args):
                return T("tuple", *[self.getitem(v, const(i), st) for i in range(len(ty.args))])
        return c

    def elts(self, es, st):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                c = self.spread(v, st)
                if c is not None and c.op in ("tuple", "list", "arr"):
                    out.extend(c.args)
                else:
                    out.append(T("star", c if c is not None else v))
            else:
                out.append(self.eval(e, st))
        return out

    def mk_list(self, xs, st, kind="list"):
        r = self.new_ref("#" + kind)
        st.heap[(r, "#v")] = T(kind, *xs)
        return r

    def e_List(self, n, st):
        return self.mk_list(self.elts(n.elts, st), st)

    def e_Set(self, n, st):
        return self.mk_list(self.elts(n.elts, st), st, "set")

    def e_Dict(self, n, st):
        items = []
        base = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.eval(v, st)
                c = self.content(x, st)
                if c is not None and c.op == "dict":
                    items.extend(c.args)
                else:
                    items.append((T("starstar"), x))
            else:
                kk = self.eval(k, st)
                items.append((kk, self.eval(v, st)))
        r = self.new_ref("#dict")
        st.heap[(r, "#v")] = T("dict", *items)
        return r

    def e_JoinedStr(self, n, st):
        vs = [self.eval(v.value, st) if isinstance(v, ast.FormattedValue) else const(v.value) for v in n.values]
        plain = [isinstance(v, T) and v.op == "const" and type(v.args[0]) in (str, int) and not (isinstance(e, ast.FormattedValue) and (e.format_spec or e.conversion != -1)) for v, e in zip(vs, n.values)]
        return const("".join(str(v.args[0]) for v in vs)) if all(plain) else T("fstr", *vs)

    def e_Lambda(self, n, st):
        cid = len(self.closures) + 1
        self.closures[cid] = (n, self.cur())
        return T("closure", cid)

    def e_Starred(self, n, st):
        return T("star", self.eval(n.value, st))

    def e_Slice(self, n, st):
        f = lambda x: self.eval(x, st) if x is not None else NONE
        return T("slice", f(n.lower), f(n.upper), f(n.step))

    def e_Await(self, n, st):
        return self.eval(n.value, st)

    def e_Yield(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        fr = self.cur()
        self.effect("yield", st, n, value=v)
        if fr.yields is not None:
            st.heap[(fr.yields, "#v")] = self.lappend(self.hget(st, fr.yields, "#v"), v)
        return NONE

    def e_YieldFrom(self, n, st):
        v = self.eval(n.value, st)
        fr = self.cur()
        if fr.yields is not None:
            self.list_extend(fr.yields, v, st, n)
        return NONE

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(type(n.op).__name__, a, b, st, n)

    OPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Pow": "pow", "Mod": "mod", "FloorDiv": "floordiv", "MatMult": "matmul",
           "BitOr": "bitor", "BitAnd": "bitand", "BitXor": "bitxor", "LShift": "lshift", "RShift": "rshift"}
    DUNDER = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "div": "__truediv__", "matmul": "__matmul__", "pow": "__pow__", "mod": "__mod__",
              "floordiv": "__floordiv__", "bitor": "__or__", "bitand": "__and__"}

    def binop(self, opname, a, b, st, node=None):
        op = self.OPS.get(opname, opname)
        qa, qb = self.clsof(a), self.clsof(b)
        if qa and op in self.DUNDER:
            m = self.ix.find_method(qa, self.DUNDER[op])
            if m:
                return self.call_method(a, m, (b,), (), st, node)
        if qb and op in self.DUNDER and not qa:
            m = self.ix.find_method(qb, self.DUNDER[op].replace("__", "__r", 1))
            if m:
                return self.call_method(b, m, (a,), (), st, node)
        if op in ("sub", "bitor", "bitand", "bitxor"):
            x, y = self.const_set(a, st), self.const_set(b, st)
            if x is not None and y is not None:
                r = {"sub": x - y, "bitor": x | y, "bitand": x & y, "bitxor": x ^ y}[op]
                return self.mk_list([const(k) for k in dict.fromkeys([t.args[0] for u in (a, b) for t in (u if u.op == "set" else self.content(u, st)).args]) if k in r], st, "set")
        if op == "matmul":
            return matmul(a, b, self, st)
        if op == "add":
            for x, y, f in ((a, b, lambda z: self.binop(opname, z, b, st, node)), (b, a, lambda z: self.binop(opname, a, z, st, node))):
                if x.op == "ite" and all(z.op == "tuple" or (z.op == "ref" and z.args[1] == "#list") for z in lists_of(x)):
                    return ite(x.args[0], f(x.args[1]), f(x.args[2]))
        ca, cb = self.content(a, st), self.content(b, st)
        if op == "add" and ca is not None and cb is not None and ca.op in ("list", "tuple") and cb.op in ("list", "tuple"):
            if ca.op == "tuple":
                return T("tuple", *(ca.args + cb.args))
            return self.mk_list(ca.args + cb.args, st)
        if op == "add" and ca is not None and (ca.op in ("list", "comp", "concat") or (cb is not None and cb.op in ("list", "comp", "concat"))):
            r = self.new_ref("#list")
            st.heap[(r, "#v")] = concat(ca, cb if cb is not None else b)
            return r
        if op == "mul" and ca is not None and ca.op in ("list", "tuple") and isconst(b) and isinstance(b.args[0], int):
            xs = ca.args * b.args[0]
            return T("tuple", *xs) if ca.op == "tuple" else self.mk_list(xs, st)
        return arith(op, a, b)

    # ------------------------------------------------------------------ attributes
    def e_Attribute(self, n, st):
        o = self.eval(n.value, st)
        return self.getattr(o, n.attr, st, n)

    def getattr(self, o, name, st, node=None):
        op = o.op
        if op == "ite":
            x = self.getattr(o.args[1], name, st, node)
            y = self.getattr(o.args[2], name, st, node)
            return ite(o.args[0], x, y)
        if op == "mod":
            if o.args[0] in self.ix.modules:
                r = self.ix.lookup(o.args[0], name)
                if r:
                    return self.resolved(r)
            return self.ext(o.args[0] + "." + name)
        if op == "ext":
            return self.ext(o.args[0] + "." + name)
        if op == "cls":
            return self.cls_getattr(o, name, st)
        if op == "super":
            m = self.ix.find_method(o.args[1], name, after=o.args[0])
            if m:
                return self.bind(o.args[2], m)
            ra = None
            mro = self.ix.mro(o.args[1])
            return T("bmeth", o.args[2], name, "super")
        v = self.hget(st, o, name)
        if v is not None:
            return v
        if op == "fn" and o.args[0] == "SE2" and name in ("T", "shape", "dot", "copy", "tolist", "flatten", "ravel", "size"):
            return self.getattr(se2mat(o), name, st, node)
        if name == "exterior" and op in ("call", "fn"):
            ps = poly_points(o)
            if ps is not None:
                return T("fn", "ring", *ps)
        if name == "coords" and op == "fn" and o.args[0] == "ring":
            return T("tuple", *o.args[1:], o.args[1])
        if name == "__class__":
            return self.type_of_value(o)
        if name == "__dict__":
            return T("fn", "vars", o)
        q = self.clsof(o)
        if q:
            m = self.ix.find_method(q, name)
            if m:
                ci, fn = m
                ds = decos(fn)
                exact = self.is_exact(o)
                over = not exact and any(name in self.ix.classes[s].methods for s in self.ix.subclasses(q))
                if any(d in ("property", "cached_property", "abstractproperty") for d in ds):
                    qual = ci.qual + "." + name
                    if over or "abstractmethod" in ds or self.is_opaque(qual):
                        t = mkattr2(o, name, self.hget(st, o, "#ver"))
                        return t
                    if qual in self.overrides:
                        return self.overrides[qual](self, st, (o,), (), node)
                    if len(self.frames) > self.maxdepth or any(f.qual == qual for f in self.frames):
                        return mkattr2(o, name, self.hget(st, o, "#ver"))
                    return self.exec_function(fn, ci.mod, ci, {fn.args.args[0].arg: o}, st, qual=qual, selfterm=o)
                if over or "abstractmethod" in ds:
                    return T("bmeth", o, name, ci.qual)
                return self.bind(o, m)
            if o.op == "ref":
                r = self.ix.find_attr(q, name)
                if r and r[1][0] is not None:
                    v = self.class_attr(r[0], name)
                    if v.op != "fieldspec":
                        return v
            else:
                r = self.ix.find_attr(q, name)
                if r and r[1][0] is not None and r[1][1] is None:
                    return self.class_attr(r[0], name)
        if op == "arr":
            r = arr_attr(o, name)
            if r is not None:
                return r
        if name in ("real",):
            return o
        if q is None or not self._declares(q, name):
            if name in METHOD_NAMES or (op in ("const", "list", "tuple", "dict", "set", "arr", "fstr", "comp") or (op == "ref" and o.args[1].startswith("#"))):
                return T("bmeth", o, name, None)
        if op == "fn" and o.args[0] == "deepcopy":
            inner = self.getattr(o.args[1], name, st, node)
            if inner.op in ("attr", "const", "item", "ref"):
                return T("fn", "deepcopy", inner) if not isconst(inner) else inner
        if self.try_attr and self.lacks(o, q, name):
            self.raises.append(Outcome("raise", T("call", "builtins.AttributeError", (), ()), st.fork(), getattr(node, "lineno", 0)))
            st.pc = FALSE
        return mkattr2(o, name, self.hget(st, o, "#ver"))

    def _has(self, q, name):
        if self._declares(q, name) or self.ix.find_method(q, name):
            return True
        for c in self.ix.mro(q):
            for m in self.ix.classes[c].methods.values():
                for n in ast.walk(m):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        return True
        return False

    def _declares(self, q, name):
        return self.ty.attr_type(q, name) is not None or self.ix.find_attr(q, name) is not None

    def cls_getattr(self, o, name, st):
        q = o.args[0]
        if name in ("__name__", "__qualname__"):
            return const(q.split(".")[-1])
        if q + "." + name in self.ix.classes:
            return T("cls", q + "." + name)
        m = self.ix.find_method(q, name)
        if m:
            ds = decos(m[1])
            if "classmethod" in ds:
                return T("bound", o, m[0].qual + "." + m[1].name)
            if "staticmethod" in ds:
                return T("func", m[0].qual + "." + m[1].name)
            return T("func", m[0].qual + "." + m[1].name)
        v = self.hget(st, o, name)
        if v is not None:
            return v
        r = self.ix.find_attr(q, name)
        if r and r[1][0] is not None:
            return self.class_attr(r[0], name)
        return T("attr", o, name)

    def bind(self, o, m):
        ci, fn = m
        if "staticmethod" in decos(fn):
            return T("func", ci.qual + "." + fn.name)
        if "classmethod" in decos(fn):
            q = self.clsof(o)
            return T("bound", T("cls", q) if q else o, ci.qual + "." + fn.name)
        return T("bound", o, ci.qual + "." + fn.name)

    def type_of_value(self, o):
        q = self.clsof(o)
        if q and self.is_exact(o):
            return T("cls", q)
        if o.op == "ite":
            return ite(o.args[0], self.type_of_value(o.args[1]), self.type_of_value(o.args[2]))
        if o.op == "const":
            return T("ext", "builtins." + type(o.args[0]).__name__)
        n = self.scalar(o)
        if n:
            return T("ext", "decimal.Decimal" if n == "Decimal" else "builtins." + n)
        return T("fn", "type", o)

    # ------------------------------------------------------------------ items
    def content(self, t, st):
        """The literal content of a container term, if known."""
        if t.op == "ref":
            return self.hget(st, t, "#v")
        if t.op in ("tuple", "list", "set", "dict", "arr", "comp", "concat"):
            return t
        return None

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        if o.op in ("cls", "ext", "newtype") and not (o.op == "ext" and False):
            # generic alias such as DgSampledSequence[X]
            if o.op == "ext" and o.args[0] in ("typing.Union", "typing.Optional"):
                k = self.eval(n.slice, st)
                return T("fn", "typing_union", *(k.args if k.op == "tuple" else (k,)), *((NONE,) if o.args[0] == "typing.Optional" else ()))
            if o.op == "cls" or o.args[0].split(".")[-1] in MAPPINGS or o.args[0].startswith(("typing.", "collections.", "builtins.")):
                return o
        k = self.eval(n.slice, st)
        return self.getitem(o, k, st, n)

    def getitem(self, o, k, st, node=None):
        r = self.getitem0(o, k, st, node)
        if o.op == "ref" and o.args[1] == "#list" and r.op == "ite" and literal_choice(r) and all(x.op == "list" for x in lists_of(r)) and is_slice(k):
            n = self.new_ref("#list")
            st.heap[(n, "#v")] = r
            return n
        return r

    def getitem0(self, o, k, st, node=None):
        if o.op == "ite":
            return ite(o.args[0], self.getitem(o.args[1], k, st), self.getitem(o.args[2], k, st))
        if k.op == "ite" and o.op in ("ref", "dict", "tuple", "list", "arr"):
            return ite(k.args[0], self.getitem(o, k.args[1], st), self.getitem(o, k.args[2], st))
        if k.op in CHOICE_OPS and o.op in ("ref", "tuple", "list", "arr"):
            kk = choice(k)
            if kk is not None and kk.op == "ite":
                return self.getitem(o, kk, st)
        o = se2mat(o)
        q = self.clsof(o)
        if q and o.op == "ref" and not o.args[1].startswith("#"):
            m = self.ix.find_method(q, "__getitem__")
            if m:
                return self.call_method(o, m, (k,), (), st, node)
        c = self.content(o, st)
        if c is not None:
            if c.op == "ite":
                c = _one_dict(c) or c
            r = item_of(c, k)
            if r is not None:
                return r
            if c.op == "ite" and literal_choice(c):
                return ite(c.args[0], self.getitem(c.args[1], k, st), self.getitem(c.args[2], k, st))
            v = st.heap.get((o, ("item", k)))
            if v is not None:
                return v
            if c.op == "comp" and c.args[0] == "dict":
                return T("item", c, k)
            return T("item", c, k)
        if o.op == "dset":
            r = item_of(o, k)
            if r is not None:
                return r
        v = st.heap.get((o, ("item", k)))
        if v is not None:
            return v
        if o.op == "fn" and o.args[0] == "slice_of":
            base, lo = o.args[1], o.args[2]
            if isconst(k) and isinstance(k.args[0], int) and k.args[0] >= 0:
                return self.getitem(base, arith("add", k, lo if not isconst(lo, None) else ZERO), st)
        if k.op == "slice" and isconst(k.args[2], None) and not isconst(k.args[0]) or (k.op == "slice" and isconst(k.args[2], None)):
            lo = k.args[0] if not isconst(k.args[0], None) else ZERO
            if isconst(lo) and isinstance(lo.args[0], int) and lo.args[0] >= 0:
                return T("fn", "slice_of", o, lo, k.args[1])
        if o.op == "fn" and o.args[0] == "items":
            pass
        ver = self.hget(st, o, "#ver")
        ov = [(kk[1], vv) for (oo, kk), vv in st.heap.items() if oo is o and isinstance(kk, tuple) and kk[0] == "item"
              and not (isconst(kk[1]) and isconst(k)) and not distinct_loop_keys(kk[1], k)]
        if ov:
            w = T("wr", ver if ver is not None else T("ver0"), tuple(ov))
            return T("item", o, k, w)
        v = self.written_by_loop(o, k, ver)
        if v is not None:
            return v
        return T("item", o, k) if ver is None or ver.op == "ver0" else T("item", o, k, ver)

    def written_by_loop(self, o, k, ver):
        """o[k] after an exhausted loop over the keys of a mapping that wrote o[key] for each of them, k being one of these keys"""
        if ver is None or ver.op != "loopwr" or ver.args[3] is not o or k.op != "elem":
            return None
        _, src, depth, _, key, v = ver.args
        if key is not T("elem", src, depth) or k.args[0] is not src:
            return None
        base = src.args[0] if src.op == "versioned" else src
        ty = self.typeof(base)
        if ty is None or ty.name not in MAPPINGS or v.op == "ref":
            return None
        d = k.args[1]
        if contains(v, lambda y: y.op == "mu" and y.args[0] == depth or d != depth and y.op in ("elem", "index") and y.args[1] == d):
            return None
        return subst(v, {key: k, T("index", src, depth): T("index", src, d)})

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        f = n.func
        # logging and printing are not part of any property
        if isinstance(f, ast.Attribute):
            r = f.value
            while isinstance(r, ast.Attribute):
                r = r.value
            if isinstance(r, ast.Name) and r.id in ("logger", "logging", "warnings"):
                return NONE
        if isinstance(f, ast.Name) and f.id == "print":
            return NONE
        if isinstance(f, ast.Name) and f.id == "super":
            fr = self.cur()
            g = fr
            while g is not None and g.selfterm is None:
                g = g.parent
            if g is not None and g.cls is not None:
                s = g.selfterm
                q = s.args[0] if s.op == "cls" else (self.clsof(s) or g.cls.qual)
                owner = g.cls.qual
                if n.args:
                    a0 = self.eval(n.args[0], st)
                    if a0.op == "cls":
                        owner = a0.args[0]
                if owner not in self.ix.mro(q):
                    q = owner
                return T("super", owner, q, s)
            return T("opaque", "super")
        fv = self.eval(f, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                c = self.spread(v, st)
                if c is not None and c.op in ("tuple", "list", "arr"):
                    args.extend(c.args)
                else:
                    args.append(T("star", v))
            else:
                args.append(self.eval(a, st))
        kwargs = []
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                c = self.content(v, st)
                if c is not None and c.op == "dict" and all(isconst(kk) for kk, _ in c.args):
                    kwargs.extend((kk.args[0], vv) for kk, vv in c.args)
                else:
                    kwargs.append(("**", v))
            else:
                kwargs.append((k.arg, v))
        if st.pc is FALSE:
            return T("bottom")
        return self.call(fv, tuple(args), tuple(kwargs), st, n)

    def is_opaque(self, qual):
        return qual in self.opaque or any(qual.endswith("." + o) for o in self.opaque)

    def override_for(self, qual):
        if qual in self.overrides:
            return self.overrides[qual]
        for o, f in self.overrides.items():
            if qual.endswith("." + o):
                return f
        return None

    def call(self, f, args, kwargs, st, node):
        op = f.op
        if op == "ite":
            c = self.simp(f.args[0], st.pc)
            k = truthy_const(c)
            if k is not None:
                return self.call(f.args[1] if k else f.args[2], args, kwargs, st, node)
            a, b = st.fork(), st.fork()
            a.pc, b.pc = land(st.pc, c), land(st.pc, lnot(c))
            x = self.call(f.args[1], args, kwargs, a, node)
            y = self.call(f.args[2], args, kwargs, b, node)
            st.become(self.merge2(c, a, b, st.pc))
            return ite(c, x, y)
        if op == "func":
            q = f.args[0]
            ov = self.override_for(q)
            if ov:
                return ov(self, st, args, kwargs, node)
            fi = self.ix.funcs.get(q)
            if fi is None or self.is_opaque(q) or self.too_deep(q) or "abstractmethod" in decos(fi.node):
                return self.opaque_call(q, args, kwargs, st, node, fi)
            return self.inline(fi.node, fi.mod, fi.cls, q, args, kwargs, st, node)
        if op == "closure":
            nd, fr = self.closures[f.args[0]]
            q = fr.qual + "." + getattr(nd, "name", "<lambda>")
            ov = self.override_for(q)
            if ov:
                return ov(self, st, args, kwargs, node)
            if self.too_deep(q):
                return self.opaque_call(q, args, kwargs, st, node, None)
            return self.inline(nd, fr.mod, fr.cls, q, args, kwargs, st, node, parent=fr)
        if op == "bound":
            o, q = f.args
            ov = self.override_for(q)
            if ov:
                return ov(self, st, (o,) + tuple(args), kwargs, node)
            fi = self.ix.funcs.get(q)
            if fi is None or self.is_opaque(q) or self.too_deep(q) or "abstractmethod" in decos(fi.node):
                return self.opaque_mcall(o, q.split(".")[-1], args, kwargs, st, node, fi)
            return self.inline(fi.node, fi.mod, fi.cls, q, (o,) + tuple(args), kwargs, st, node, selfterm=o)
        if op == "bmeth":
            return self.builtin_method(f.args[0], f.args[1], args, kwargs, st, node, f.args[2])
        if op == "cls":
            return self.instantiate(f.args[0], args, kwargs, st, node)
        if op == "ext":
            return self.ext_call(f.args[0], args, kwargs, st, node)
        if op == "newtype":
            return args[0] if args else NONE
        if op == "partial":
            return self.call(f.args[0], tuple(f.args[1]) + tuple(args), tuple(f.args[2]) + tuple(kwargs), st, node)
        if op == "global":
            return self.opaque_call(f.args[0], args, kwargs, st, node, None)
        if op == "attr":
            return self.opaque_mcall(f.args[0], f.args[1], args, kwargs, st, node, None)
        # calling a value: object with __call__
        q = self.clsof(f)
        if q:
            m = self.ix.find_method(q, "__call__")
            if m:
                return self.call_method(f, m, args, kwargs, st, node)
        if op == "fn" and f.args[0] == "type" :
            return self.opaque_call("type_call", (f,) + args, kwargs, st, node, None)
        return self.opaque_call(f, args, kwargs, st, node, None)

    def too_deep(self, q):
        return len(self.frames) > self.maxdepth or sum(1 for fr in self.frames if fr.qual == q) >= 2

    def call_method(self, o, m, args, kwargs, st, node):
        ci, fn = m
        return self.call(self.bind(o, m), args, kwargs, st, node)

    def inline(self, fn, mod, cls, q, args, kwargs, st, node, parent=None, selfterm=None):
        env = self.bind_args(fn, mod, cls, args, kwargs, st, q)
        if env is None:
            self.note(f"cannot bind arguments of {q}")
            return self.opaque_call(q, args, kwargs, st, node, None)
        if selfterm is None and cls is not None and parent is None and fn.args.args and not isinstance(fn, ast.Lambda) \
                and "staticmethod" not in decos(fn):
            selfterm = env.get(fn.args.args[0].arg)
        v = self.exec_function(fn, mod, cls, env, st, qual=q, selfterm=selfterm, parent=parent, node=node)
        if v.op not in ("const", "ite", "ref", "arr", "tuple", "bottom") and not isinstance(fn, ast.Lambda) and v not in self.types and fn.returns is not None:
            ty = self.ty.ann(mod, fn.returns)
            if ty is not None and ty.name in self.ix.classes:
                self.types[v] = ty
        return v

    def bind_args(self, fn, mod, cls, args, kwargs, st, q):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        rest = []
        for i, v in enumerate(args):
            if v.op == "star":
                if a.vararg:
                    rest.append(v)
                    continue
                # unknown star: distribute
                for j, nm in enumerate(names[len(env):]):
                    if nm not in dict(kwargs):
                        env[nm] = T("item", v.args[0], const(j))
                break
            if len(env) < len(names) and names[len(env)] not in env and i < len(names):
                env[names[i]] = v
            elif a.vararg:
                rest.append(v)
            else:
                return None
        extra = []
        for k, v in kwargs:
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                extra.append((const(k), v))
            elif k == "**":
                for nm in names + [x.arg for x in a.kwonlyargs]:
                    if nm not in env:
                        env[nm] = T("item", v, const(nm))
            else:
                return None
        if a.vararg:
            env[a.vararg.arg] = T("tuple", *rest)
        if a.kwarg:
            r = self.new_ref("#dict")
            st.heap[(r, "#v")] = T("dict", *extra)
            env[a.kwarg.arg] = r
        ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in env:
                if nm in ds:
                    key = ("default", q, nm)
                    if key not in self.memo_globals:
                        self.memo_globals[key] = self.eval_static(mod, ds[nm], cls)
                    env[nm] = self.memo_globals[key]
                else:
                    return None
        # declared types of symbolic arguments
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = env.get(x.arg)
            if v is not None and x.annotation is not None and v.op in ("var", "attr", "item", "mcall", "call", "elem", "fn") and self.typeof(v) is None:
                ty = self.ty.ann(mod, x.annotation)
                if ty is not None and ty.name in self.ix.classes:
                    self.types[v] = ty
        return env

    # -- opaque calls
    def opaque_call(self, q, args, kwargs, st, node, fi):
        name = q if isinstance(q, str) else "?"
        fargs = tuple(self.freeze(a, st) for a in args)
        fkw = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs))
        if isinstance(q, str) and fi is not None:
            fargs, fkw = self.canon_args(fi, fargs, fkw)
        if isinstance(q, str) and q.startswith(IMPURE_EXT):
            self.nimp += 1
            r = T("call", q, fargs, fkw, self.nimp)
        else:
            r = T("call", q, fargs, fkw)
        if fi is not None and r not in self.types:
            ty = self.ty.ann(fi.mod, fi.node.returns)
            if ty is not None:
                self.types[r] = ty
        e = self.effect("call", st, node, target=None if isinstance(q, str) else q, name=name, args=args, kwargs=kwargs, value=r)
        e.value = r
        if fi is not None and "get_" not in name.split(".")[-1]:
            pass
        return r

    def canon_args(self, fi, args, kw):
        """Positional/keyword independent argument list."""
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if fi.cls is not None and "staticmethod" not in decos(fi.node) and names:
            names = names[1:]
        if a.vararg or len(args) > len(names) or any(isinstance(x, T) and x.op == "star" for x in args):
            return args, kw
        d = dict(zip(names, args))
        d.update(kw)
        return (), tuple(sorted(d.items()))

    def opaque_mcall(self, o, name, args, kwargs, st, node, fi):
        h = self.overrides.get("." + name)
        if h is not None:
            return h(self, st, (o, *args), kwargs, node)
        fargs = tuple(self.freeze(a, st) for a in args)
        fkw = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs))
        if fi is not None:
            fargs, fkw = self.canon_args(fi, fargs, fkw)
        ver = self.hget(st, o, "#ver")
        ov = [(k[1], v) for k, v in st.heap.items() if k[0] is o and isinstance(k[1], str) and not k[1].startswith("#")]
        if ov and o.op != "ref":
            ver = T("wr", ver if ver is not None else T("ver0"), tuple((const(a), b) for a, b in ov))
        fo = self.freeze(o, st) if o.op == "ref" and o.args[1].startswith("#") else o
        r = T("mcall", fo, name, fargs, fkw) if ver is None or ver.op == "ver0" else T("mcall", fo, name, fargs, fkw, ver)
        if fi is not None and r not in self.types:
            ty = self.ty.ann(fi.mod, fi.node.returns)
            if ty is not None:
                self.types[r] = ty
        e = self.effect("call", st, node, target=o, name=name, args=args, kwargs=kwargs, value=r)
        e.value = r
        if self.mutates(o, name, fi):
            self.bump(o, name, fargs, st)
        return r

    def mutates(self, o, name, fi):
        if name in self.extra_pure:
            return False
        if name in MUTATORS:
            return True
        return fi is not None and not name.startswith(PURE_PREFIX) and not name.startswith("__")

    def bump(self, o, name, fargs, st):
        old = self.hget(st, o, "#ver") or T("ver0")
        for k in [k for k in st.heap if k[0] is o and k[1] != "#ver" and o.op != "ref"]:
            del st.heap[k]
        st.heap[(o, "#ver")] = T("mut", old, name, fargs)

    def mutate_symbolic(self, o, name, args, kwargs, st, node):
        if name == "extend" and len(args) == 1 and not kwargs:
            c = self.content(args[0], st)
            c = c if c is not None else args[0]
            if c.op in ("list", "tuple") and c.args and all(isinstance(x, T) and x.op != "spread" for x in c.args):
                for x in c.args:
                    r = self.mutate_symbolic(o, "append", (x,), (), st, node)
                return r
        r = T("mcall", o, name, tuple(args), tuple(kwargs), self.hget(st, o, "#ver") or T("ver0"))
        self.effect("mutate", st, node, target=o, name=name, args=args, kwargs=kwargs, value=r)
        self.bump(o, name, tuple(self.freeze(a, st) for a in args), st)
        return r

    # -- list helpers
    def lappend(self, c, v):
        if c.op == "list":
            return T("list", *(c.args + (v,)))
        if c.op == "ite" and literal_choice(c):
            return ite(c.args[0], self.lappend(c.args[1], v), self.lappend(c.args[2], v))
        return T("lappend", c, v)

    def list_extend(self, ref, v, st, node):
        c = self.hget(st, ref, "#v")
        vc = self.content(v, st)
        self.effect("mutate", st, node, target=ref, name="extend", args=(v,))
        st.heap[(ref, "#v")] = concat(c, vc if vc is not None else v)

    # ------------------------------------------------------------------ builtin methods
    def builtin_method(self, o, name, args, kwargs, st, node, decl):
        if decl == "super":
            if name == "__setitem__":
                self.setitem_raw(o, args[0], args[1], st, node)
            elif name not in ("__init__", "__post_init__", "__init_subclass__"):
                return self.opaque_mcall(o, name, args, kwargs, st, node, None)
            return NONE
        if name in SET_METHODS and len(args) == 1 and not kwargs:
            x, y = self.const_set(o, st), self.const_set(self.ext_call("builtins.set", (args[0],), (), st, node), st)
            if x is not None and y is not None:
                return self.compare("LtE", o, self.mk_list([const(k) for k in y], st, "set"), st) if name == "issubset" else \
                    const(x >= y) if name == "issuperset" else const(x.isdisjoint(y)) if name == "isdisjoint" else \
                    self.binop(SET_METHODS[name], o, self.ext_call("builtins.set", (args[0],), (), st, node), st, node)
        q = self.clsof(o)
        if decl and q:
            m = self.ix.find_method(q, name)
            fi = FuncInfo(m[0].qual + "." + name, m[0].mod, m[1], m[0]) if m else None
            ov = self.override_for(decl + "." + name)
            if ov:
                return ov(self, st, (o,) + tuple(args), kwargs, node)
            return self.opaque_mcall(o, name, args, kwargs, st, node, fi)
        if o.op == "ite" and not (name in ("append",)):
            return self.call(ite(o.args[0], T("bmeth", o.args[1], name, decl), T("bmeth", o.args[2], name, decl)), args, kwargs, st, node)
        c = self.content(o, st)
        kw = dict(kwargs)
        if name == "__iter__" and not args and o.op in ("tuple", "list", "arr", "fn", "comp", "ref") and not self.clsof(o):
            return o
        if name == "index" and c is not None and c.op in ("tuple", "list") and len(args) == 1 and not kwargs and not any(x.op == "star" for x in c.args):
            return self.index_of(c, args[0], st, node)
        if o.op == "ref" and c is not None:
            if name == "append":
                self.effect("mutate", st, node, target=o, name=name, args=args)
                st.heap[(o, "#v")] = self.lappend(c, args[0])
                return NONE
            if name == "add":
                self.effect("mutate", st, node, target=o, name=name, args=args)
                st.heap[(o, "#v")] = T("set", *(c.args + (args[0],))) if c.op == "set" else T("lappend", c, args[0])
                return NONE
            if name == "extend":
                self.list_extend(o, args[0], st, node)
                return NONE
            if name == "insert" and c.op == "list" and isconst(args[0]) and isinstance(args[0].args[0], int):
                xs = list(c.args)
                xs.insert(args[0].args[0], args[1])
                self.effect("mutate", st, node, target=o, name=name, args=args)
                st.heap[(o, "#v")] = T("list", *xs)
                return NONE
            if name == "update" and o.args[1] != "#list":
                self.effect("mutate", st, node, target=o, name=name, args=args, kwargs=kwargs)
                items = [(const(k), v) for k, v in kwargs]
                cc = c
                if args:
                    ac = self.content(args[0], st)
                    if ac is not None and ac.op == "dict":
                        items = list(ac.args) + items
                    elif ac is not None and ac.op == "comp" and ac.args[0] == "dict" and c.op == "dict" and not c.args:
                        cc = ac
                    else:
                        cc = T("dupdate", cc, ac if ac is not None else args[0])
                for k, v in items:
                    cc = _dset(cc, k, v)
                st.heap[(o, "#v")] = cc
                return NONE
            if name == "items" and c.op == "dict":
                return T("tuple", *[T("tuple", k, v) for k, v in c.args])
            if name == "values" and c.op == "dict":
                return T("tuple", *[v for _, v in c.args])
            if name == "keys" and c.op == "dict":
                return T("set", *[k for k, _ in c.args])
            if name == "get" and c.op == "dict" and isconst(args[0]) and all(isconst(k) for k, _ in c.args):
                r = item_of(c, args[0])
                return r if r is not None and r.op != "missingkey" else (args[1] if len(args) > 1 else NONE)
            if name == "copy":
                r = self.new_ref(o.args[1])
                st.heap[(r, "#v")] = c
                return r
            if name in ("pop", "popleft") and o.args[1] == "#list" and literal_choice(c) and len(args) <= (name == "pop") and all(isconst(a) for a in args):
                k = args[0].args[0] if args else 0 if name == "popleft" else -1
                if isinstance(k, int):
                    self.effect("mutate", st, node, target=o, name=name, args=args, kwargs=kwargs)

                    def rest(x):
                        if x.op == "ite":
                            return ite(x.args[0], rest(x.args[1]), rest(x.args[2]))
                        xs = list(x.args)
                        if -len(xs) <= k < len(xs):
                            del xs[k]
                        return T("list", *xs)

                    def taken(x):
                        return ite(x.args[0], taken(x.args[1]), taken(x.args[2])) if x.op == "ite" else item_of(x, const(k))
                    st.heap[(o, "#v")] = rest(c)
                    return taken(c)
            if name in ("reverse", "appendleft") and o.args[1] == "#list" and c.op == "list" and not any(x.op == "star" for x in c.args) and len(args) == (name != "reverse"):
                self.effect("mutate", st, node, target=o, name=name, args=args, kwargs=kwargs)
                st.heap[(o, "#v")] = T("list", *c.args[::-1]) if name == "reverse" else T("list", args[0], *c.args)
                return NONE
            if name in ("pop", "remove", "clear", "setdefault", "popitem", "discard", "sort", "reverse", "insert", "popleft", "appendleft", "extendleft", "rotate"):
                self.effect("mutate", st, node, target=o, name=name, args=args, kwargs=kwargs)
                if name == "clear":
                    st.heap[(o, "#v")] = T(o.args[1][1:])
                    return NONE
                old = c
                st.heap[(o, "#v")] = T("mutd", old, name, tuple(args) + tuple(v for _, v in kwargs))
                if name == "pop" and args:
                    r = item_of(old, args[0])
                    return r if r is not None else T("item", old, args[0])
                if name == "pop":
                    return T("item", old, const(-1))
                if name == "setdefault":
                    return T("item", old, args[0])
                return NONE
            if name in ("items", "values", "keys"):
                return T("mcall", c, name, (), ())
            if name == "index":
                return T("mcall", c, name, tuple(args), ())
            o = c
        if name in ("dot",) and len(args) == 1:
            return matmul(o, args[0], self, st)
        if name == "copy" and o.op == "arr":
            return o
        if name in ("flatten", "ravel") and o.op == "arr" and o.args and all(x.op == "arr" for x in o.args):
            return T("arr", *[y for x in o.args for y in x.args])
        if name in ("tolist", "flatten", "ravel") and o.op == "arr":
            return o
        if name == "item" and o.op == "arr" and len(o.args) == 1:
            return o.args[0]
        if name in ("get",) and args:
            ve = st.heap.get((o, ("item", args[0])))
            d = args[1] if len(args) > 1 else NONE
            if ve is not None:
                return ve
            if o.op == "dict" and isconst(args[0]) and all(isinstance(e, tuple) and isconst(e[0]) for e in o.args):
                r = item_of(o, args[0])
                return r if r is not None and r.op != "missingkey" else d
            ver = self.hget(st, o, "#ver")
            ty = item_type(self.typeof(o))
            r = T("mcall", o, "get", (args[0], d), ()) if ver is None or ver.op == "ver0" else T("mcall", o, "get", (args[0], d), (), ver)
            if ty is not None:
                self.types[r] = ty
            return r
        if name == "__setattr__" or (name == "__setitem__"):
            if len(args) == 2:
                self.setitem(o, args[0], args[1], st, node)
                return NONE
        if name == "__getitem__":
            return self.getitem(o, args[0], st, node)
        if name in ("items", "values", "keys") and not args and o.op == "dict" and all(isinstance(x, tuple) for x in o.args):
            return T("set" if name == "keys" else "tuple", *[T("tuple", k, v) if name == "items" else v if name == "values" else k for k, v in o.args])
        if name in ("items", "values", "keys") and not args:
            ver = self.hget(st, o, "#ver")
            return T("mcall", o, name, (), ()) if ver is None or ver.op == "ver0" else T("mcall", o, name, (), (), ver)
        if name == "max" and not args:
            return self.ext_call("numpy.max", (o,), kwargs, st, node)
        if name == "min" and not args:
            return self.ext_call("numpy.min", (o,), kwargs, st, node)
        if name in MUTATORS and o.op not in ("const", "fstr", "ext", "arr"):
            # mutating call on a symbolic builtin container
            return self.mutate_symbolic(o, name, args, kwargs, st, node)
        return self.opaque_mcall(o, name, args, kwargs, st, node, None)

    def setitem_raw(self, o, k, v, st, node):
        c = self.hget(st, o, "#v")
        if c is not None:
            st.heap[(o, "#v")] = _dset(c, k, v)
        else:
            st.heap[(o, ("item", k))] = v

    # ------------------------------------------------------------------ instantiation
    def instantiate(self, q, args, kwargs, st, node):
        ci = self.ix.classes[q]
        ov = self.override_for(q)
        if ov:
            return ov(self, st, args, kwargs, node)
        if self.is_opaque(q):
            return self.opaque_call(q, args, kwargs, st, node, None)
        if any("Enum" in b for b in self.ix.ext_bases(q)):
            return T("fn", "enum_of", T("cls", q), *args)
        r = self.new_ref(q)
        init = self.ix.find_method(q, "__init__")
        eb = self.ix.ext_bases(q)
        if any(b.split(".")[-1].split("[")[0] in ("dict", "SortedDict") for b in eb):
            st.heap[(r, "#v")] = T("dict")
        if self.ix.is_dataclass(q) and (init is None or (self.ix.classes[self._dc_owner(q)] and self._dc_before(q, init[0].qual))):
            fields = self.ix.dc_fields(q)
            names = [f[0] for f in fields if not self._no_init(f[2])]
            vals = {}
            for nm, v in zip(names, args):
                if v.op == "star":
                    break
                vals[nm] = v
            for i, v in enumerate(args):
                if v.op == "star":
                    for j, nm in enumerate(names[i:]):
                        vals.setdefault(nm, T("item", v.args[0], const(j)))
            for k, v in kwargs:
                if k == "**":
                    for nm in names:
                        if nm not in vals:
                            vals[nm] = T("item", v, const(nm))
                else:
                    if k not in names:
                        self.effect("badcall", st, node, name=q, value=const(k))
                    vals[k] = v
            missing = [f[0] for f in fields if f[0] not in vals and f[2] is None]
            if missing:
                self.effect("badcall", st, node, name=q, value=const("missing " + ",".join(missing)))
            inits = []
            for nm, owner, dv, ann in fields:
                if nm in vals:
                    v = vals[nm]
                    if v.op in ("var", "attr", "item", "elem", "mcall", "call") and self.typeof(v) is None:
                        ty = self.ty.ann(owner.mod, ann)
                        if ty is not None and ty.name in self.ix.classes:
                            self.types[v] = ty
                elif dv is not None:
                    v = self.field_default(owner, nm, dv, st, node)
                else:
                    v = T("missing", nm)
                if "InitVar" in (ast.unparse(ann) if isinstance(ann, ast.AST) else str(ann)):
                    inits.append((nm, v))
                else:
                    st.heap[(r, nm)] = v
            e = self.effect("new", st, node, name=q, value=r, kwargs=tuple((f[0], st.heap[(r, f[0])]) for f in fields if (r, f[0]) in st.heap) + tuple(inits))
            pi = self.ix.find_method(q, "__post_init__")
            if pi and not self.too_deep(pi[0].qual + ".__post_init__"):
                self.call_method(r, pi, tuple(v for _, v in inits), (), st, node)
            return r
        if init is not None:
            self.effect("new", st, node, name=q, value=r, args=args, kwargs=kwargs)
            self.call(T("bound", r, init[0].qual + ".__init__"), args, kwargs, st, node)
            return r
        if any(b.split(".")[-1] in ("Exception", "BaseException", "ZValueError", "ZException", "ValueError", "RuntimeError", "KeyError") or b.endswith("Error") for b in eb):
            st.heap[(r, "args")] = T("tuple", *args)
            for k, v in kwargs:
                st.heap[(r, "kw_" + k)] = v
            return r
        self.effect("new", st, node, name=q, value=r, args=args, kwargs=kwargs)
        if not eb or all(b.split(".")[-1] in ("ABC", "Generic", "Protocol", "object", "dict") or "Generic" in b for b in eb):
            if args and (r, "#v") in st.heap:
                ac = self.content(args[0], st)
                st.heap[(r, "#v")] = ac if ac is not None else T("dupdate", T("dict"), args[0])
            return r
        return self.opaque_call(q, args, kwargs, st, node, None)

    def _dc_owner(self, q):
        for c in self.ix.mro(q):
            if self.ix.classes[c].dataclass is not None:
                return c
        return q

    def _dc_before(self, q, initq):
        mro = self.ix.mro(q)
        o = self._dc_owner(q)
        return o in mro and initq in mro and mro.index(o) < mro.index(initq)

    def _no_init(self, v):
        return isinstance(v, ast.Call) and _fname(v.func) == "field" and any(k.arg == "init" and getattr(k.value, "value", True) is False for k in v.keywords)

    def field_default(self, owner, nm, dv, st, node):
        if isinstance(dv, ast.Call) and _fname(dv.func) == "field":
            for k in dv.keywords:
                if k.arg == "default_factory":
                    f = self.eval_static(owner.mod, k.value, owner)
                    return self.call(f, (), (), st, node)
                if k.arg == "default":
                    return self.eval_static(owner.mod, k.value, owner)
            return T("missing", nm)
        return self.class_attr(owner, nm)

    # ------------------------------------------------------------------ external calls
    def ext_call(self, q, args, kwargs, st, node):
        ov = self.overrides.get(q)
        if ov:
            return ov(self, st, args, kwargs, node)
        short = q[len("builtins."):] if q.startswith("builtins.") else None
        if short:
            if short == "dict.__setitem__" and len(args) == 3:
                self.setitem_raw(args[0], args[1], args[2], st, node)
                return NONE
            r = self.builtin_call(short, args, kwargs, st, node)
            if r is not None:
                return r
            return self.opaque_call(q, args, kwargs, st, node, None)
        if q in MATH:
            return self.math_call(_ALIAS.get(MATH[q], MATH[q]), args, kwargs, st, node)
        if q in CLOCKS:
            self.effect("call", st, node, name=q)
            return T("clock", q, len(self.effects) - 1)
        last = q.split(".")[-1]
        kw = dict(kwargs)
        if q in ("copy.deepcopy", "copy.copy"):
            x = args[0]
            if x.op in ("const",):
                return x
            r = T("fn", last, self.freeze(x, st))
            if x.op == "ref":
                # a fresh object with the same fields
                n = self.new_ref(x.args[1])
                for (o, a), v in list(self.base_heap.items()) + list(st.heap.items()):
                    if o is x:
                        st.heap[(n, a)] = T("fn", last, v) if v.op not in ("const", "list", "dict", "set", "comp") else v
                return n
            ty = self.typeof(x)
            if ty:
                self.types[r] = ty
            return r
        if q == "dataclasses.replace":
            return self.replace(args[0], kwargs, st, node)
        if q == "dataclasses.asdict" and len(args) == 1 and not kwargs:
            x = args[0]
            c = x.args[1] if x.op == "ref" else (self.typeof(x).name if x in self.exact and self.typeof(x) is not None else None)
            if c in self.ix.classes:
                fs = [(f, self.ty.ann(o.mod, ann)) for f, o, _, ann in self.ix.dc_fields(c)]
                if fs and not any(t is not None and t.name in self.ix.classes for _, t in fs):
                    r = self.new_ref("#dict")
                    st.heap[(r, "#v")] = T("dict", *[(const(f), self.getattr(x, f, st)) for f, _ in fs])
                    return r
        if q in ("typing.NewType",):
            return T("newtype", args[0].args[0] if isconst(args[0]) else "?")
        if q in ("typing.cast", "typing_extensions.cast"):
            return args[1]
        if q == "typing.get_args" and len(args) == 1 and args[0].op == "fn" and args[0].args[0] == "typing_union":
            return T("tuple", *args[0].args[1:])
        if q in ("bisect.bisect_right", "bisect.bisect", "bisect.bisect_left") and len(args) == 2 and {k for k, _ in kwargs} <= {"key"}:
            key = dict(kwargs).get("key", NONE)

            def count(c):
                # the number of leading elements that stay before x (the list is sorted, so elements compare in order)
                if c.op == "ite":
                    return ite(c.args[0], count(c.args[1]), count(c.args[2]))
                r = const(len(c.args))
                for i in range(len(c.args) - 1, -1, -1):
                    y = c.args[i] if key is NONE else self.call(key, (c.args[i],), (), st, node)
                    after = lnot(self.compare("Lt", y, args[1], st)) if q.endswith("left") else self.compare("Lt", args[1], y, st)
                    r = ite(after, const(i), r)
                return r
            c = self.content(args[0], st)
            if c is not None and literal_choice(c):
                return count(c)
        if q == "collections.deque" and len(args) <= 1 and not kwargs:
            c = self.content(self.iterated(args[0], st), st) if args else T("list")
            if c is not None and c.op in ("list", "tuple", "arr", "ite") and literal_choice(c):
                r = self.new_ref("#list")
                st.heap[(r, "#v")] = T("list", *c.args) if c.op != "ite" else c
                return r
        if q == "typing.TypeVar":
            return T("ext", "typing.TypeVar")
        if q in ("toolz.accumulate", "itertools.accumulate", "functools.reduce") and len(args) == 2 and not kwargs:
            f, xs = args if not q.startswith("itertools") else args[::-1]
            c = self.content(self.iterated(xs, st), st)
            if c is not None and c.op in ("list", "tuple", "arr") and not any(x.op == "star" for x in c.args):
                acc = list(c.args[:1])
                for x in c.args[1:]:
                    acc.append(self.call(f, (acc[-1], x), (), st, node))
                if q != "functools.reduce":
                    return T("tuple", *acc)
                if acc:
                    return acc[-1]
        if q == "itertools.pairwise" and len(args) == 1:
            c = self.content(self.iterated(args[0], st), st)
            if c is not None and c.op in ("list", "tuple", "arr") and not any(x.op == "star" for x in c.args):
                return T("tuple", *[T("tuple", a, b) for a, b in zip(c.args, c.args[1:])])
        if q == "functools.partial":
            return T("partial", args[0], tuple(args[1:]), tuple(kwargs))
        if q in ("decimal.Decimal",):
            if not args:
                return ZERO
            x = args[0]
            if isconst(x) and isinstance(x.args[0], str):
                try:
                    f = float(x.args[0])
                    return const(int(f) if f == int(f) else f)
                except (ValueError, OverflowError):
                    return const(float(x.args[0]))
            return x
        if q in ("frozendict.frozendict", "collections.OrderedDict", "frozendict", "collections.defaultdict", "types.MappingProxyType", "sortedcontainers.SortedDict"):
            if q == "collections.defaultdict":
                r = self.new_ref("#dict")
                st.heap[(r, "#v")] = T("dict") if len(args) < 2 else T("dupdate", T("dict"), args[1])
                st.heap[(r, "#factory")] = args[0] if args else NONE
                return r
            if not args:
                return self.mk_list([], st, "dict") if not kwargs else self._dict_of(kwargs, st)
            c = self.content(args[0], st)
            r = self.new_ref("#dict")
            st.heap[(r, "#v")] = c if c is not None else T("dupdate", T("dict"), args[0])
            return r
        if q == "geometry.SO2_from_angle" or last == "SO2_from_angle":
            th = args[0] if args else kw["theta"]
            c, s = self.math_call("cos", (th,), (), st, node), self.math_call("sin", (th,), (), st, node)
            return T("arr", T("arr", c, T("neg", s)), T("arr", s, c))
        if last in GEOM_ARGS and kwargs:
            d = dict(kwargs)
            args = tuple(args) + tuple(d[k] for k in GEOM_ARGS[last][len(args):] if k in d)
        if last == "SE2_from_xytheta":
            c = self.content(args[0], st)
            xs = c.args if c is not None and c.op in ("list", "tuple", "arr") else [self.getitem(args[0], const(i), st) for i in range(3)]
            if len(xs) != 3 and sum(x.op in ("star", "spread") for x in xs) == 1:
                k = next(i for i, x in enumerate(xs) if x.op in ("star", "spread"))
                xs = [*xs[:k], *[self.getitem(xs[k].args[0], const(j), st) for j in range(4 - len(xs))], *xs[k + 1:]]
            if len(xs) != 3:
                return T("fn", "SE2_of", *xs)
            return T("fn", "SE2", *xs)
        if last == "SE2_from_translation_angle":
            t = args[0]
            return T("fn", "SE2", self.getitem(t, ZERO, st), self.getitem(t, ONE, st), args[1])
        if last in ("xytheta_from_SE2", "translation_angle_from_SE2", "translation_from_SE2", "angle_from_SE2") and is_mat3(args[0]):
            p, th = [nd_item(args[0], (const(i), const(2))) for i in (0, 1)], self.math_call("arctan2", tuple(nd_item(args[0], (const(i), ZERO)) for i in (1, 0)), (), st, node)
            return {"x": T("arr", *p, th), "translation_a": T("tuple", T("arr", *p), th), "translation_f": T("arr", *p)}.get(last[:1] if last[0] == "x" else last[:13], th)
        if last in ("multiply", "inverse") and len(q.split(".")) > 1 and q.split(".")[-2] == "SE2":
            if last == "multiply":
                return matmul(args[0], args[1], self, st)
            return mat_inv(args[0], self, st)
        if last == "algebra_from_group" and q.split(".")[-2] == "SE2":
            return T("fn", "selog", self.freeze(se2mat(args[0]), st))
        if last == "group_from_algebra" and q.split(".")[-2] == "SE2":
            r = se_exp(self.freeze(args[0], st))
            if r is not None:
                return r
        if last == "translation_angle_scale_from_E2":
            if is_mat3(args[0]):
                p, th = [nd_item(args[0], (const(i), const(2))) for i in (0, 1)], self.math_call("arctan2", tuple(nd_item(args[0], (const(i), ZERO)) for i in (1, 0)), (), st, node)
                return T("tuple", T("arr", *p), th, ONE)
            if args[0].op == "fn" and args[0].args[0] == "SE2":
                return T("tuple", T("arr", *args[0].args[1:3]), args[0].args[3], ONE)
        if q in AFFINE:
            r = self.affine(q, args, kw, st, node)
            if r is not None:
                return r
        if last in ("xytheta_from_SE2",) and args[0].op == "fn" and args[0].args[0] == "SE2":
            return T("arr", *args[0].args[1:])
        if last == "translation_angle_from_SE2" and args[0].op == "fn" and args[0].args[0] == "SE2":
            return T("tuple", T("arr", *args[0].args[1:3]), args[0].args[3])
        if last == "translation_from_SE2" and args[0].op == "fn" and args[0].args[0] == "SE2":
            return T("arr", *args[0].args[1:3])
        if last == "angle_from_SE2" and args[0].op == "fn" and args[0].args[0] == "SE2":
            return args[0].args[3]
        if q == "itertools.combinations":
            return T("fn", "combinations", *[self.iter_norm(args[0], st)] + list(args[1:]))
        if q in ("itertools.product",):
            return T("fn", "product", *[self.freeze(a, st) for a in args])
        if q.split(".")[0] in ("toolz", "cytoolz") and q.split(".")[-1] in TOOLZ and len(args) == 2 and not kwargs:
            return self.call(self.e_Lambda(ast.parse("lambda f, d: " + TOOLZ[q.split(".")[-1]], mode="eval").body, st), args, (), st, node)
        if q in ("cytoolz.interleave", "toolz.interleave") and len(args) == 1:
            return T("fn", "interleave_from", self.freeze(args[0], st))
        if q in ("itertools.chain.from_iterable", "toolz.concat", "cytoolz.concat"):
            return T("fn", "chain_from", self.freeze(args[0], st))
        if q == "itertools.chain":
            return concat(*[self.content(a, st) or a for a in args])
        if q.startswith("operator."):
            o = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "neg": None}.get(last)
            if o:
                return self.binop(o, args[0], args[1], st, node)
            if last == "neg":
                return self.neg(args[0], st)
            if last == "attrgetter" or last == "itemgetter":
                return T("opgetter", last, tuple(args))
        return self.opaque_call(q, args, kwargs, st, node, None)

    def affine(self, q, args, kw, st, node):
        """shapely's affine maps as one canonical term: fn('affine', geometry, a, b, d, e, xoff, yoff)"""
        last = q.split(".")[-1]
        names = AFFINE[q]
        d = dict(zip(names, args))
        d.update(kw)
        g = self.freeze(d.pop("geom", NONE), st)
        if last == "affine_transform":
            m = self.content(d.get("matrix", NONE), st)
            if m is None or m.op not in ("list", "tuple", "arr") or len(m.args) != 6:
                return None
            m = list(m.args)
        elif last == "translate":
            m = [ONE, ZERO, ZERO, ONE, d.get("xoff", ZERO), d.get("yoff", ZERO)]
        elif last == "rotate":
            o = self.content(d.get("origin", const("center")), st) or d.get("origin", const("center"))
            if o.op not in ("tuple", "list", "arr") or len(o.args) < 2:
                return None
            a = d.get("angle")
            rad = d.get("use_radians", FALSE)
            if rad is FALSE:
                a = arith("mul", a, arith("div", T("fn", "pi"), const(180)))
            elif rad is not TRUE:
                return None
            c, s = self.math_call("cos", (a,), (), st, node), self.math_call("sin", (a,), (), st, node)
            ox, oy = o.args[:2]
            m = [c, T("neg", s), s, c,
                 arith("sub", ox, arith("sub", arith("mul", c, ox), arith("mul", s, oy))), arith("sub", oy, arith("add", arith("mul", s, ox), arith("mul", c, oy)))]
        else:
            return None
        if g.op == "fn" and g.args[0] == "affine":
            g, n = g.args[1], g.args[2:]
            M = [[m[0], m[1]], [m[2], m[3]]]
            L = [[n[0], n[1]], [n[2], n[3]]]
            P = [[dotp(M[i], [L[0][j], L[1][j]]) for j in (0, 1)] for i in (0, 1)]
            off = [arith("add", dotp(M[i], n[4:6]), m[4 + i]) for i in (0, 1)]
            m = [P[0][0], P[0][1], P[1][0], P[1][1], off[0], off[1]]
        r = T("fn", "affine", g, *m)
        ty = self.typeof(g)
        if ty:
            self.types[r] = ty
        return r

    def _dict_of(self, kwargs, st):
        r = self.new_ref("#dict")
        st.heap[(r, "#v")] = T("dict", *[(const(k), v) for k, v in kwargs])
        return r

    def replace(self, o, kwargs, st, node):
        if o.op == "ite":
            c = o.args[0]
            return ite(c, self.replace(o.args[1], kwargs, st, node), self.replace(o.args[2], kwargs, st, node))
        q = self.clsof(o)
        if q is None or not self.ix.is_dataclass(q):
            return T("fn", "replace", self.freeze(o, st), *[T("kw", k, self.freeze(v, st)) for k, v in kwargs])
        fields = [f[0] for f in self.ix.dc_fields(q)]
        d = dict(kwargs)
        r = self.new_ref(q)
        for nm in fields:
            v = d[nm] if nm in d else self.getattr(o, nm, st, node)
            for k, m in kwargs:
                if k == "**":
                    c = self.compare("In", const(nm), m, st)
                    v = v if c is FALSE else ite(c, self.getitem(m, const(nm), st), v)
            st.heap[(r, nm)] = v
        for k in d:
            if k not in fields and k != "**":
                self.effect("badcall", st, node, name=q, value=const(k))
        self.effect("new", st, node, name=q, value=r, kwargs=tuple((f, st.heap[(r, f)]) for f in fields))
        pi = self.ix.find_method(q, "__post_init__")
        if pi and not self.too_deep(pi[0].qual + ".__post_init__"):
            self.call_method(r, pi, (), (), st, node)
        return r

    def builtin_call(self, n, args, kwargs, st, node):
        if n in ("list", "tuple", "set", "iter", "zip", "enumerate", "sorted", "reversed", "sum", "any", "all", "min", "max", "dict", "map", "filter"):
            k = 1 if n in ("map", "filter") else 0
            args = tuple(args[:k]) + tuple(self.iterated(a, st) for a in args[k:])
        if n == "len" and len(args) == 1 and args[0].op == "ref" and self.hget(st, args[0], "#v") is None and args[0].args[1] in self.ix.classes:
            m = self.ix.find_method(args[0].args[1], "__len__")
            if m:
                return self.call_method(args[0], m, (), (), st, node)
        if n in ("len", "tuple") and len(args) == 1:
            c = self.content(args[0], st) if args[0].op == "ref" else args[0]
            if c is not None and c.op == "ite" and literal_choice(c):
                return ite(c.args[0], self.builtin_call(n, (c.args[1],), (), st, node), self.builtin_call(n, (c.args[2],), (), st, node))
        a0 = args[0] if args else None
        kw = dict(kwargs)
        if n == "len":
            c = self.content(a0, st)
            if c is not None and c.op in ("list", "tuple", "dict", "set", "arr") and not any(isinstance(x, T) and x.op == "star" for x in c.args):
                return const(len(c.args))
            if c is not None and c.op == "comp" and c.args[3] is TRUE and c.args[0] == "list":
                return T("fn", "len", c.args[2])
            ver = self.hget(st, a0, "#ver")
            return T("fn", "len", c if c is not None else a0) if ver is None or ver.op == "ver0" else T("fn", "len", a0, ver)
        if n in ("float", "int") and args:
            if isconst(a0):
                try:
                    v = float(a0.args[0]) if n == "float" else int(a0.args[0])
                    if n == "float" and v == int(v) if v == v and abs(v) != float("inf") else False:
                        v = int(v)
                    return const(v)
                except (TypeError, ValueError, OverflowError):
                    pass
            if n == "float":
                return a0
            return T("fn", "int", a0)
        if n == "bool":
            return self.truth(a0, st) if args else FALSE
        if n == "abs":
            return self.math_call("abs", args, (), st, node)
        if n in ("min", "max"):
            xs = list(args)
            if len(xs) == 1:
                c = a0 if a0.op == "ite" else self.content(a0, st)
                if c is not None and c.op == "ite" and all(x.op in ("list", "tuple", "ite") for x in c.args[1:]):
                    return ite(c.args[0], *[self.builtin_call(n, (x,), kwargs, st, node) for x in c.args[1:]])
                if c is not None and c.op in ("list", "tuple", "set", "arr") and not kwargs and c.args and not any(x.op == "star" for x in c.args):
                    xs = list(c.args)
                    if len(xs) == 1:
                        return xs[0]
                elif set(kw) == {"key"} and literal(keys_of(c)):
                    xs = list(keys_of(c).args)
                else:
                    key = kw.get("key")
                    ks = [T("kw", k, v) for k, v in sorted(kwargs) if k != "key"]
                    if key is not None:
                        ks.append(T("kw", "key", key))
                    return T("fn", n, c if c is not None else self.freeze(a0, st), *ks)
            if set(kw) == {"key"} and 1 <= len(xs) <= 3:
                ks = [self.call(kw["key"], (x,), (), st, node) for x in xs]
                best, bk = xs[0], ks[0]
                for x, k in zip(xs[1:], ks[1:]):
                    c = self.compare("Lt", k, bk, st) if n == "min" else self.compare("Lt", bk, k, st)
                    best, bk = ite(c, x, best), ite(c, k, bk)
                return best
            if kwargs:
                return T("fn", n, *xs, *[T("kw", k, v) for k, v in sorted(kwargs)])
            return self.math_call(n, tuple(xs), (), st, node)
        if n == "sum":
            c = self.content(a0, st)
            init = args[1] if len(args) > 1 else kw.get("start", ZERO)
            if c is not None and c.op in ("list", "tuple", "arr"):
                r = init
                for x in c.args:
                    r = self.binop("Add", r, x, st, node)
                return r
            if c is not None and c.op == "comp":
                s = T("sum", c.args[2], c.args[1], c.args[3], c.args[4])
                return s if isconst(init, 0) else arith("add", init, s)
            return T("fn", "sum", a0, init)
        if n in ("any", "all"):
            c = self.content(a0, st)
            if c is not None and c.op in ("list", "tuple", "set"):
                cs = [self.truth(x, st) for x in c.args]
                return lor(*cs) if n == "any" else land(*cs)
            if c is not None and c.op == "comp":
                v = self.truth(c.args[4], st)
                if n == "any":
                    return any_term(c.args[2], c.args[1], land(c.args[3], v))
                return lnot(any_term(c.args[2], c.args[1], land(c.args[3], lnot(v))))
            return T("fn", n, self.freeze(a0, st))
        if n == "isinstance" or n == "issubclass":
            return self.isinstance_(n, a0, args[1], st)
        if n == "type" and len(args) == 1:
            return self.type_of_value(a0)
        if n == "getattr":
            if isconst(args[1]):
                return self.getattr(a0, args[1].args[0], st, node)
            return T("fn", "getattr", *args)
        if n == "setattr":
            if isconst(args[1]):
                self.setattr(a0, args[1].args[0], args[2], st, node)
            else:
                self.effect("store", st, node, target=a0, name=args[1], value=args[2])
                self.bump(a0, "setattr", tuple(args[1:]), st)
            return NONE
        if n == "hasattr":
            q = self.clsof(a0)
            if isconst(args[1]) and q and a0.op != "ite":
                k = args[1].args[0]
                if self.lacks(a0, q, k):
                    return FALSE
                if self._has(q, k) and self.ix.is_dataclass(q):
                    return TRUE
            return T("fn", "hasattr", *args)
        if n == "object.__setattr__":
            if isconst(args[1]):
                self.setattr(a0, args[1].args[0], args[2], st, node)
            return NONE
        if n in ("list", "tuple", "set", "frozenset"):
            if not args:
                return T("tuple") if n == "tuple" else self.mk_list([], st, "list" if n == "list" else "set")
            c = self.content(a0, st)
            if c is not None and c.op in ("list", "tuple", "set", "arr"):
                return T("tuple", *c.args) if n == "tuple" else self.mk_list(c.args, st, "list" if n == "list" else "set")
            if c is not None and c.op == "dict":
                return self.mk_list([k for k, _ in c.args], st, "list" if n == "list" else "set") if n != "tuple" else T("tuple", *[k for k, _ in c.args])
            if c is not None and c.op == "comp" and n in ("list", "tuple"):
                if n == "tuple":
                    return T("comp", "list", *c.args[1:]) if c.args[0] in ("list", "gen") else c
                r = self.new_ref("#list")
                st.heap[(r, "#v")] = T("comp", "list", *c.args[1:]) if c.args[0] in ("list", "gen") else c
                return r
            cc = self.iter_to_comp(a0, st)
            v = T("fn", n, cc if cc is not None else (c if c is not None else a0))
            if n == "list":
                r = self.new_ref("#list")
                st.heap[(r, "#v")] = v
                return r
            return v
        if n == "dict":
            if not args:
                return self._dict_of(kwargs, st)
            c = self.content(a0, st)
            r = self.new_ref("#dict")
            if c is not None and c.op == "comp" and c.args[4].op == "tuple" and len(c.args[4].args) == 2:
                c = T("comp", "dict", *c.args[1:])
            if c is not None and c.op in ("list", "tuple") and all(x.op == "tuple" and len(x.args) == 2 for x in c.args):
                c = T("dict", *[(x.args[0], x.args[1]) for x in c.args])
            if a0.op == "fn" and a0.args[0] == "zip" and len(a0.args) == 3:
                c = T("fn", "dictzip", a0.args[1], a0.args[2])
            v = c if c is not None else T("dupdate", T("dict"), a0)
            for k, x in kwargs:
                v = _dset(v, const(k), x)
            st.heap[(r, "#v")] = v
            return r
        if n in ("range", "enumerate", "zip", "reversed", "map", "filter", "sorted", "iter"):
            if n == "range" and all(isconst(a) and isinstance(a.args[0], int) for a in args):
                rg = range(*[a.args[0] for a in args])
                if len(rg) <= 24:
                    return T("tuple", *[const(i) for i in rg])
            if n == "range" and not kwargs and any(a.op == "ite" or a.op in CHOICE_OPS for a in args):
                k = choice(T("slice", *args))
                if k is not None:
                    return self.range_choice(k, st, node)
            if n == "map":
                return self.map_call(args, st, node)
            if n == "filter":
                return self.filter_call(args, st, node)
            if n == "iter" and len(args) == 1:
                return a0
            if n == "enumerate" and not kwargs and len(args) == 1:
                c = keys_of(self.content(a0, st))
                if c is not None and c.op in ("list", "tuple", "arr"):
                    return T("tuple", *[T("tuple", const(i), x) for i, x in enumerate(c.args)])
            if n == "zip":
                cs = [keys_of(self.content(a, st)) for a in args]
                if all(c is not None and c.op in ("list", "tuple", "arr") for c in cs) and cs:
                    return T("tuple", *[T("tuple", *xs) for xs in zip(*[c.args for c in cs])])
            if n == "reversed":
                c = self.content(a0, st)
                if c is not None and c.op in ("list", "tuple"):
                    return T("tuple", *reversed(c.args))
            fr = [self.content(a, st) or a for a in args]
            if n == "sorted":
                c = fr[0]
                if c.op == "dict":
                    c = T("tuple", *[k for k, _ in c.args])
                if c.op in ("list", "tuple", "set") and not kwargs and c.args and all(isinstance(x, T) and x.op == "const" and isinstance(x.args[0], str) for x in c.args):
                    return self.mk_list([const(k) for k in sorted(x.args[0] for x in c.args)], st)
                if c.op in ("list", "tuple") and len(c.args) == 2 and set(kw) <= {"key", "reverse"} and isconst(kw.get("reverse", FALSE)) and not any(x.op in ("star", "spread", "guarded") for x in c.args):
                    a, b = c.args
                    ka, kb = (self.call(kw["key"], (x,), (), st, node) for x in (a, b)) if kw.get("key", NONE) is not NONE else (a, b)
                    sw = self.compare("Lt", ka, kb, st) if kw.get("reverse") is TRUE else self.compare("Lt", kb, ka, st)
                    return self.mk_list([ite(sw, b, a), ite(sw, a, b)], st)
                if c.op == "mcall" and c.args[1] == "keys":
                    fr[0] = c.args[0]
                return T("fn", "sorted", *fr, *[T("kw", k, v) for k, v in kwargs])
            if kwargs:
                fr += [T("kw", k, v) for k, v in kwargs]
            return T("fn", n, *fr)
        if n == "round":
            return T("fn", "round", *args)
        if n == "pow":
            return arith("pow", args[0], args[1])
        if n == "divmod":
            return T("tuple", arith("floordiv", *args), arith("mod", *args))
        if n in ("str", "repr", "hash", "id", "ord", "chr", "vars", "callable", "complex", "slice", "format"):
            if n == "str" and len(args) == 1 and isconst(a0) and type(a0.args[0]) in (str, int):
                return const(str(a0.args[0]))
            if n == "slice":
                xs = list(args)
                if len(xs) == 1:
                    xs = [NONE, xs[0]]
                while len(xs) < 3:
                    xs.append(NONE)
                return T("slice", *xs)
            return T("fn", n, *[self.freeze(a, st) for a in args])
        if n == "next":
            c = self.content(a0, st) if a0.op != "ite" else a0
            d = args[1] if len(args) > 1 else None
            if c is not None and literal_choice(c) and node is not None and isinstance(node.args[0], ast.GeneratorExp):
                def head(x, pc):
                    if x.op == "ite":
                        return ite(x.args[0], head(x.args[1], land(pc, x.args[0])), head(x.args[2], land(pc, lnot(x.args[0]))))
                    if x.args:
                        return x.args[0]
                    if d is not None:
                        return d
                    sr = st.fork()
                    sr.pc = self.simp(pc, TRUE)
                    if sr.pc is not FALSE:
                        self.raises.append(Outcome("raise", T("call", "builtins.StopIteration", (), ()), sr, getattr(node, "lineno", 0)))
                        ends.append(sr.pc)
                    return T("bottom")
                ends = []
                v = head(c, st.pc)
                for x in ends:
                    st.pc = land(st.pc, lnot(x))
                return v
            if c is not None and c.op == "comp":
                f = T("first", c.args[2], c.args[1], c.args[3], c.args[4])
                if d is not None:
                    return ite(any_term(c.args[2], c.args[1], c.args[3]), f, d)
                return f
            return T("fn", "next", *[self.freeze(a, st) for a in args])
        if n in ("ValueError", "RuntimeError", "KeyError", "NotImplementedError", "TypeError", "Exception", "AssertionError", "IndexError", "StopIteration",
                 "AttributeError", "ZeroDivisionError"):
            return T("call", "builtins." + n, tuple(args), tuple(kwargs))
        return None

    def iterated(self, t, st):
        """what iterating over an object of a repository class produces"""
        if t.op == "ref" and t.args[1] in self.ix.classes and self.hget(st, t, "#v") is None:
            m = self.ix.find_method(t.args[1], "__iter__")
            if m:
                return self.call_method(t, m, (), (), st, None)
        return t

    def scalar(self, t, depth=0):
        """the scalar type of an expression over scalars of known type: Decimal, float or int"""
        if t.op == "const":
            return type(t.args[0]).__name__ if isinstance(t.args[0], (int, float, str)) else None
        ty = self.types.get(t)
        if ty is not None and t in self.exact and ty.name.split(".")[-1] in SCALARS:
            return ty.name.split(".")[-1]
        if depth > 12:
            return None
        if t.op in ("add", "sub", "mul", "div", "neg", "floordiv", "mod"):
            k = {self.scalar(x, depth + 1) for x in t.args}
            if None in k or not k <= {"int", "float", "Decimal", "bool"} or {"float", "Decimal"} <= k:
                return None
            return "Decimal" if "Decimal" in k else "float" if "float" in k or t.op == "div" else "int"
        return None

    def range_choice(self, k, st, node):
        if k.op == "ite":
            return ite(k.args[0], self.range_choice(k.args[1], st, node), self.range_choice(k.args[2], st, node))
        return self.builtin_call("range", tuple(k.args), (), st, node)

    def index_of(self, c, x, st, node):
        """list.index / tuple.index on a literal sequence: the first equal element, ValueError when there is none"""
        eqs = [self.compare("Eq", y, x, st) for y in c.args]
        found = lor(*eqs)
        if found is not TRUE:
            sr = st.fork()
            sr.pc = land(st.pc, lnot(found))
            if sr.pc is not FALSE:
                self.raises.append(Outcome("raise", T("call", "builtins.ValueError", (), ()), sr, getattr(node, "lineno", 0)))
            st.pc = land(st.pc, found)
        r = const(len(eqs) - 1)
        for i in range(len(eqs) - 2, -1, -1):
            r = ite(eqs[i], const(i), r)
        return r

    def lacks(self, o, q, name):
        """o, an instance of the dataclass q, certainly has no attribute of this name"""
        return q and name.isidentifier() and self.ix.is_dataclass(q) and not name.startswith("__") and \
            (self.is_exact(o) or all(not self._has(s, name) for s in self.ix.subclasses(q))) and not self._has(q, name) and \
            not self.ix.find_method(q, "__getattr__") and all(b.split(".")[-1] in ("ABC", "Generic", "Protocol", "object") for b in self.ix.ext_bases(q))

    def isinstance_(self, n, v, c, st):
        if c.op == "fn" and c.args[0] == "typing_union":
            c = T("tuple", *c.args[1:])
        if c.op == "tuple":
            return lor(*[self.isinstance_(n, v, x, st) for x in c.args])
        if v.op == "ite":
            return lor(land(v.args[0], self.isinstance_(n, v.args[1], c, st)), land(lnot(v.args[0]), self.isinstance_(n, v.args[2], c, st)))
        if n == "issubclass":
            if v.op == "cls":
                return const(c.op == "cls" and c.args[0] in self.ix.mro(v.args[0]) or (c.op == "ext" and any(b == c.args[0] for b in self.ix.ext_bases(v.args[0]))))
            if v.op == "fn" and v.args[0] == "type":
                return T("fn", "isinstance", v.args[1], c)
            return T("fn", "issubclass", v, c)
        q = self.clsof(v)
        if q and self.is_exact(v) and c.op == "cls":
            return const(c.args[0] in self.ix.mro(q))
        if q and c.op == "cls" and c.args[0] in self.ix.mro(q) and v.op == "ref":
            return TRUE
        if v.op == "const" and c.op == "cls":
            return FALSE
        if v in self.ext_types and c.op in ("ext", "cls"):
            k = self.ext_types[v]
            return const(c.args[0] in ((k,) if isinstance(k, str) else k) or c.args[0] == "builtins.object")
        if q and self.is_exact(v) and c.op == "ext":
            eb = self.ix.ext_bases(q)
            if c.args[0] in eb:
                return TRUE
            if all(b.split("[")[0].split(".")[-1] in ("ABC", "Generic", "Protocol", "object") for b in eb):
                return FALSE
        if v.op == "const" and c.op == "ext":
            t = {"builtins.int": int, "builtins.float": float, "builtins.str": str, "builtins.bool": bool}.get(c.args[0])
            if t:
                return const(isinstance(v.args[0], t))
        if not q and c.op == "ext":
            a, b = self.scalar(v), c.args[0].split(".")[-1]
            if a and b in SCALARS:
                return const(a == b or (a, b) == ("bool", "int"))
        return T("fn", "isinstance", v, c)

    # -- maths
    def math_call(self, n, args, kwargs, st, node):
        args = tuple(self.content(a, st) if a.op == "ref" and self.content(a, st) is not None else a for a in args)
        a0 = args[0] if args else None
        kw = dict(kwargs)
        if n in ("cumsum", "diff") and len(args) == 1 and not kwargs:
            c = a0
            if c is not None and c.op in ("list", "tuple", "arr") and not any(x.op in ("star", "arr", "tuple", "list") for x in c.args):
                if n == "diff":
                    return T("arr", *[arith("sub", b, a) for a, b in zip(c.args, c.args[1:])])
                acc = list(c.args[:1])
                for x in c.args[1:]:
                    acc.append(arith("add", acc[-1], x))
                return T("arr", *acc)
        if n in ("add", "sub", "mul", "div", "pow") and len(args) == 2:
            return arith(n, args[0], args[1])
        if n == "neg":
            return self.neg(a0, st)
        if n in ("dot", "matmul") and len(args) == 2:
            return matmul(args[0], args[1], self, st)
        if n == "inv":
            return mat_inv(a0, self, st)
        if n == "clip" and len(args) == 2 and args[1].op == "star":
            args = (a0, self.getitem(args[1].args[0], ZERO, st), self.getitem(args[1].args[0], ONE, st))
        if n == "norm" and len(args) == 2 and args[1] is NONE:
            args = args[:1]
        if n == "norm" and kwargs and kw.get("ord") is NONE:
            kwargs = tuple((k, v) for k, v in kwargs if k != "ord")
            kw = dict(kwargs)
        if n == "array":
            if a0.op in ("list", "tuple") and any(x.op == "ref" and x.args[1] == "#list" for x in a0.args):
                a0 = T(a0.op, *[self.content(x, st) or x if x.op == "ref" and x.args[1] == "#list" else x for x in a0.args])
            r = to_arr(a0)
            return r if r is not None else a0
        if n == "ravel" and a0.op == "arr" and a0.args and all(x.op == "arr" for x in a0.args):
            return T("arr", *[y for x in a0.args for y in x.args])
        if n in ("float64", "float32", "int64", "squeeze", "ravel"):
            return a0
        if n in ("zeros", "ones", "empty") and a0 is not None:
            k = a0
            if k.op in ("list", "tuple") and len(k.args) == 1:
                k = k.args[0]
            if isconst(k) and isinstance(k.args[0], int) and k.args[0] < 64:
                return T("arr", *([ZERO if n != "ones" else ONE] * k.args[0]))
        if n in ("concatenate", "hstack") and a0 is not None and a0.op in ("list", "tuple"):
            xs = []
            for x in a0.args:
                c = self.content(x, st) if x.op != "ite" else x
                c = pull_ite(c) if c is not None else None
                if c is None:
                    xs = None
                    break
                xs.extend(c.args)
            if xs is not None:
                return T("arr", *xs)
        if n == "append" and len(args) == 2:
            c0, c1 = to_arr(args[0]), to_arr(args[1])
            if c0 is not None:
                return T("arr", *(c0.args + (c1.args if c1 is not None else (args[1],))))
        if n == "clip":
            x = a0
            lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min"))
            hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max"))
            if lo is not None and hi is not None:
                return self.math_call("min", (self.math_call("max", (x, lo), (), st, node), hi), (), st, node)
        if n in ("min", "max") and len(args) >= 2 and not kwargs:
            r = args[0]
            for b in args[1:]:
                r = fold2(n, r, b)
            return r
        if n in ("min", "max") and len(args) == 1 and a0.op in ("arr", "list", "tuple") and not kwargs and a0.args:
            r = a0.args[0]
            for b in a0.args[1:]:
                r = fold2(n, r, b)
            return r
        if n == "cross" and len(args) == 2:
            x, y = to_arr(args[0]), to_arr(args[1])
            if x is not None and y is not None and len(x.args) == len(y.args) == 2:
                return arith("sub", arith("mul", x.args[0], y.args[1]), arith("mul", x.args[1], y.args[0]))
            if x is not None and y is not None and len(x.args) == len(y.args) == 3:
                a, b = x.args, y.args
                g = lambda i, j: arith("sub", arith("mul", a[i], b[j]), arith("mul", a[j], b[i]))
                return T("arr", g(1, 2), g(2, 0), g(0, 1))
        if n == "norm":
            x = to_arr(a0)
            if x is not None and not kwargs and len(args) == 1 and x.args and not any(e.op == "arr" for e in x.args):
                s = None
                for e in x.args:
                    p = arith("mul", e, e)
                    s = p if s is None else arith("add", s, p)
                return root(s)
        if n == "hypot" and len(args) == 2:
            return root(arith("add", arith("mul", a0, a0), arith("mul", args[1], args[1])))
        if n == "square":
            return arith("mul", a0, a0)
        if n == "radians":
            return arith("mul", a0, arith("div", T("fn", "pi"), const(180)))
        if n == "degrees":
            return arith("mul", a0, arith("div", const(180), T("fn", "pi")))
        if n in ("mean", "average") and a0.op in ("arr", "list", "tuple") and a0.args and not kwargs and len(args) == 1 and not any(e.op in ("arr", "star", "spread") for e in a0.args):
            return self.binop("Div", self.math_call("sum", (a0,), (), st, node), const(len(a0.args)), st, node)
        if n == "sum" and a0.op in ("arr", "list", "tuple") and not kwargs and len(args) == 1 and not any(e.op == "arr" for e in a0.args):
            r = ZERO
            for x in a0.args:
                r = arith("add", r, x)
            return r
        if n in ("cos", "sin", "tan", "sqrt", "abs", "atan", "exp", "sign") and len(args) == 1:
            if a0.op == "arr":
                return T("arr", *[self.math_call(n, (x,), (), st, node) for x in a0.args])
            if a0.op == "ite":
                return ite(a0.args[0], self.math_call(n, (a0.args[1],), (), st, node), self.math_call(n, (a0.args[2],), (), st, node))
            if isconst(a0, 0):
                return ONE if n in ("cos", "exp") else ZERO
            if n == "sqrt" and isconst(a0):
                return root(a0)
            if n == "abs" and isconst(a0) and isinstance(a0.args[0], (int, float)):
                return const(abs(a0.args[0]))
            if n == "abs" and a0.op == "neg":
                return T("fn", "abs", a0.args[0])
        ks = tuple(T("kw", k, v) for k, v in sorted(kwargs))
        return T("fn", n, *args, *ks)

    def map_call(self, args, st, node):
        f, it = args[0], args[1]
        if len(args) > 2:
            return T("fn", "map", *args)
        return self.comp_over("list", it, st, lambda e, s: self.call(f, (e,), (), s, node), None)

    def filter_call(self, args, st, node):
        f, it = args
        if isconst(f, None):
            return self.comp_over("list", it, st, lambda e, s: e, lambda e, s: self.truth(e, s))
        return self.comp_over("list", it, st, lambda e, s: e, lambda e, s: self.truth(self.call(f, (e,), (), s, node), s))


METHOD_NAMES = {"append", "extend", "add", "update", "pop", "remove", "clear", "insert", "setdefault", "popitem", "discard", "sort", "reverse",
                "items", "values", "keys", "get", "copy", "dot", "tolist", "flatten", "ravel", "index", "count", "union", "intersection",
                "difference", "issubset", "issuperset", "format", "join", "split", "strip", "startswith", "endswith", "lower", "upper", "replace", "__setitem__", "__getitem__"}


TOOLZ = {"valmap": "{k: f(v) for k, v in d.items()}", "keymap": "{f(k): v for k, v in d.items()}", "keyfilter": "{k: v for k, v in d.items() if f(k)}",
         "valfilter": "{k: v for k, v in d.items() if f(v)}", "remove": "[x for x in d if not f(x)]"}


def _fname(f):
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)


def mkattr2(o, name, ver):
    return T("attr", o, name) if ver is None or ver.op == "ver0" else T("attr", o, name, ver)


def _one_dict(c):
    from .absint import one_dict
    return one_dict(c)


def _dset(c, k, v):
    from .absint import dset
    return dset(c, k, v)


def any_term(it, d, c):
    if c is FALSE:
        return FALSE
    return T("any", it, d, c)


def root(s):
    """the square root, evaluated for squares of rational numbers"""
    if isconst(s) and type(s.args[0]) in (int, float, Fraction) and s.args[0] >= 0:
        f = Fraction(s.args[0])
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return const(a // b if a % b == 0 else a / b)
    return T("fn", "sqrt", s)


def distinct_loop_keys(a, b):
    return False


def nd_item(c, ks):
    """numpy indexing by a tuple of indices and slices, one per axis"""
    if not ks:
        return c
    if c.op != "arr":
        return None
    if ks[0].op == "slice":
        if not all(isconst(x) for x in ks[0].args):
            return None
        rows = [nd_item(r, ks[1:]) for r in c.args[slice(*[x.args[0] for x in ks[0].args])]]
        return None if any(r is None for r in rows) else T("arr", *rows)
    r = item_of(c, ks[0])
    return None if r is None else nd_item(r, ks[1:])


def pull_ite(c):
    """a choice between arrays of one shape, taken component by component"""
    if c.op != "ite":
        return to_arr(c)
    a, b = pull_ite(c.args[1]), pull_ite(c.args[2])
    if a is None or b is None or len(a.args) != len(b.args):
        return None
    return T("arr", *[ite(c.args[0], x, y) for x, y in zip(a.args, b.args)])


CHOICE_OPS = ("add", "sub", "neg", "slice", "mul", "floordiv", "mod")


def decided(c, env):
    """truth of a condition under the conditions already decided on the way, or None"""
    if c in env:
        return env[c]
    if c.op == "const":
        return bool(c.args[0])
    if c.op == "not":
        d = decided(c.args[0], env)
        return None if d is None else not d
    if c.op in ("and", "or"):
        ds = [decided(x, env) for x in c.args]
        k = c.op == "or"
        if k in ds:
            return k
        return None if None in ds else not k
    return None


def branch(c, env, f):
    """f under both outcomes of a condition, joined"""
    d = decided(c, env)
    if d is not None:
        return f(env, d)
    while c.op in ("and", "or", "not"):
        c = next((x for x in c.args if decided(x, env) is None), c.args[0])
    a, b = f({**env, c: True}, None), f({**env, c: False}, None)
    return None if a is None or b is None else (c, a, b)


def choice(k, env=None, depth=0):
    """An index built from choices between integers, as one choice between constants; None when it is anything else."""
    env = env or {}
    if k.op == "const":
        return k
    if depth > 40:
        return None
    if k.op == "ite":
        def go(e, d):
            if d is None:
                return choice(k, e, depth + 1)
            return choice(k.args[1 if d else 2], e, depth + 1)
        r = branch(k.args[0], env, go)
        return ite(*r) if isinstance(r, tuple) else r
    if k.op in CHOICE_OPS:
        if not all(isinstance(x, T) for x in k.args):
            return None
        xs = [choice(x, env, depth + 1) for x in k.args]
        if any(x is None for x in xs):
            return None
        for i, x in enumerate(xs):
            if x.op == "ite":
                def go(e, d, i=i, x=x, xs=xs):
                    if d is None:
                        return choice(T(k.op, *xs), e, depth + 1)
                    return choice(T(k.op, *xs[:i], x.args[1 if d else 2], *xs[i + 1:]), e, depth + 1)
                r = branch(x.args[0], env, go)
                return ite(*r) if isinstance(r, tuple) else r
        if k.op == "slice":
            return T("slice", *xs)
        v = [x.args[0] for x in xs]
        if not all(isinstance(y, int) and not isinstance(y, bool) for y in v):
            return None
        try:
            if k.op == "add":
                return const(sum(v))
            if k.op == "mul":
                r = 1
                for y in v:
                    r *= y
                return const(r)
            return const({"sub": lambda: v[0] - v[1], "neg": lambda: -v[0], "floordiv": lambda: v[0] // v[1], "mod": lambda: v[0] % v[1]}[k.op]())
        except (TypeError, ZeroDivisionError):
            return None
    return None


def lists_of(c):
    return lists_of(c.args[1]) + lists_of(c.args[2]) if c.op == "ite" else [c]


def keys_of(c):
    """iterating a literal dict gives its keys in order of insertion."""
    if c is not None and c.op == "dict" and all(isinstance(x, tuple) for x in c.args):
        return T("tuple", *[k for k, _ in c.args])
    return c


def literal(c, most=3):
    return c is not None and c.op in ("list", "tuple", "arr") and 1 <= len(c.args) <= most and not any(x.op in ("star", "spread", "guarded") for x in c.args)


def is_slice(k):
    return is_slice(k.args[1]) and is_slice(k.args[2]) if k.op == "ite" else k.op == "slice"


def literal_choice(c):
    """a choice between literal sequences"""
    if c.op == "ite":
        return literal_choice(c.args[1]) and literal_choice(c.args[2])
    return c.op in ("list", "tuple", "set") and not any(isinstance(x, T) and x.op == "star" for x in c.args)


def int_choice(k):
    if k.op == "ite":
        return int_choice(k.args[1]) and int_choice(k.args[2])
    return isconst(k) and isinstance(k.args[0], int) and not isinstance(k.args[0], bool)


def choice_cmp(k, a, b, env=None):
    """comparison of two integer choices, as a condition; None when they are anything else"""
    env = env or {}
    for x, sw in ((a, False), (b, True)):
        if x.op == "ite":
            def go(e, d):
                if d is None:
                    return choice_cmp(k, a, b, e)
                y = x.args[1 if d else 2]
                return choice_cmp(k, a, y, e) if sw else choice_cmp(k, y, b, e)
            r = branch(x.args[0], env, go)
            return lor(land(r[0], r[1]), land(lnot(r[0]), r[2])) if isinstance(r, tuple) else r
    if not all(isconst(x) and isinstance(x.args[0], int) and not isinstance(x.args[0], bool) for x in (a, b)):
        return None
    return const(a.args[0] < b.args[0] if k == "Lt" else a.args[0] == b.args[0])


def guarded_pairs(c):
    """[(condition, key, value)] of a dict made from a literal collection."""
    if c is not None and c.op == "fn" and c.args[0] == "dictof":
        out = []
        for x in c.args[1:]:
            g, y = (x.args[0], x.args[1]) if x.op == "guarded" else (TRUE, x)
            if y.op != "tuple" or len(y.args) != 2:
                return None
            out.append((g, *y.args))
        return out
    return None


def item_of(c, k):
    """Item k of a literal container, or None if not determined."""
    ps = guarded_pairs(c)
    if ps is not None and isconst(k) and all(isconst(x) for _, x, _ in ps):
        r = T("outofrange", c, k)
        for g, x, v in ps:
            if x is k:
                r = ite(g, v, r)
        return r
    if c.op in ("tuple", "list", "arr"):
        if isconst(k) and isinstance(k.args[0], int) and not isinstance(k.args[0], bool):
            i = k.args[0]
            if any(isinstance(x, T) and x.op == "star" for x in c.args):
                return None
            if -len(c.args) <= i < len(c.args):
                return c.args[i]
            return T("outofrange", c, k)
        if k.op == "slice" and all(isconst(x) for x in k.args):
            s = slice(*[x.args[0] for x in k.args])
            return T(c.op, *c.args[s])
        if k.op == "tuple" and c.op == "arr":
            return nd_item(c, k.args)
        return None
    if c.op == "dict":
        for kk, vv in c.args:
            if kk is k:
                return vv
        if isconst(k) and all(isconst(kk) for kk, _ in c.args):
            for kk, vv in c.args:
                if kk.args[0] == k.args[0]:
                    return vv
            return T("missingkey", k)
        if len(c.args) and all(isconst(kk) or kk.op == "enum" for kk, _ in c.args) and not isconst(k):
            return None
        return None
    if c.op == "dset":
        if c.args[1] is k:
            return c.args[2]
        if isconst(c.args[1]) and isconst(k):
            return item_of(c.args[0], k)
        return None
    if c.op == "comp" and c.args[0] == "dict" and c.args[4].op == "tuple":
        kt, vt = c.args[4].args
        el = T("elem", c.args[2], c.args[1])
        if kt is el:
            return subst(vt, {el: k})
    return None


def to_arr(t):
    if t is None:
        return None
    if t.op == "arr":
        return t
    if t.op in ("list", "tuple"):
        xs = []
        for x in t.args:
            if isinstance(x, T) and x.op == "star":
                return None
            y = to_arr(x) if x.op in ("list", "tuple") else x
            if y is None:
                return None
            xs.append(y)
        return T("arr", *xs)
    return None


def is_bool(t):
    return t in (TRUE, FALSE) or t.op in ("cmp", "and", "or", "not", "any") or t.op == "ite" and is_bool(t.args[1]) and is_bool(t.args[2])


def concat(*xs):
    parts = []
    for x in xs:
        if x.op == "concat":
            parts.extend(x.args)
        elif x.op in ("list", "tuple") and not x.args:
            continue
        elif parts and x.op in ("list", "tuple") and parts[-1].op == "list":
            parts[-1] = T("list", *(parts[-1].args + x.args))
        else:
            parts.append(T("list", *x.args) if x.op == "tuple" else x)
    if not parts:
        return T("list")
    if len(parts) == 1:
        return parts[0]
    return T("concat", *parts)


def isnum(t):
    return t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


def fold2(n, a, b):
    if isnum(a) and isnum(b):
        return const(min(a.args[0], b.args[0]) if n == "min" else max(a.args[0], b.args[0]))
    if a is b:
        return a
    return T("fn", n, a, b)


def known_vec(t):
    """a point's coordinates are a vector of two components"""
    if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "coords":
        return T("arr", *vec_of(t))
    return t


EXACT = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y}


def arith(op, a, b):
    if a.op == "arr" or b.op == "arr":
        a, b = known_vec(a), known_vec(b)
        if a.op == "arr" and b.op == "arr":
            if len(a.args) == len(b.args):
                return T("arr", *[arith(op, x, y) for x, y in zip(a.args, b.args)])
        elif a.op == "arr" and b.op in ("list", "tuple") and len(a.args) == len(b.args):
            return T("arr", *[arith(op, x, y) for x, y in zip(a.args, b.args)])
        elif b.op == "arr" and a.op in ("list", "tuple") and len(a.args) == len(b.args):
            return T("arr", *[arith(op, x, y) for x, y in zip(a.args, b.args)])
        elif a.op == "arr":
            if b.op == "ite":
                return ite(b.args[0], arith(op, a, b.args[1]), arith(op, a, b.args[2]))
            return T("arr", *[arith(op, x, b) for x in a.args])
        else:
            if a.op == "ite":
                return ite(a.args[0], arith(op, a.args[1], b), arith(op, a.args[2], b))
            return T("arr", *[arith(op, a, y) for y in b.args])
    if op == "add" and isconst(a) and isconst(b) and type(a.args[0]) is type(b.args[0]) is str:
        return const(a.args[0] + b.args[0])
    if isnum(a) and isnum(b):
        x, y = a.args[0], b.args[0]
        try:
            if op in EXACT and not (isinstance(x, int) and isinstance(y, int) and op != "div") and math.isfinite(x) and math.isfinite(y):
                # exact arithmetic on the decimal values, left as it is where the result has no short decimal value
                v = EXACT[op](Fraction(str(x)), Fraction(str(y)))
                v = int(v) if v.denominator == 1 else float(v) if Fraction(str(float(v))) == v else None
                return const(v) if v is not None else T(op, a, b)
            v = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x / y, "pow": lambda: x ** y,
                 "mod": lambda: x % y, "floordiv": lambda: x // y}[op]()
            if isinstance(v, float) and v == v and abs(v) < 1e15 and v == int(v):
                v = int(v)
            if isinstance(v, (int, float)):
                return const(v)
        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
            pass
    if op == "add" and isconst(a, 0):
        return b
    if op in ("add", "sub") and isconst(b, 0):
        return a
    if op == "mul" and (isconst(a, 1)):
        return b
    if op in ("mul", "div") and isconst(b, 1):
        return a
    # arrays under a condition
    if op in ("add", "sub", "mul", "div"):
        if a.op == "ite" and (_has_arr(a)):
            return ite(a.args[0], arith(op, a.args[1], b), arith(op, a.args[2], b))
        if b.op == "ite" and (_has_arr(b)):
            return ite(b.args[0], arith(op, a, b.args[1]), arith(op, a, b.args[2]))
    return T(op, a, b)


def _has_arr(t):
    return t.op == "arr" or (t.op == "ite" and (_has_arr(t.args[1]) or _has_arr(t.args[2])))


def arr_attr(o, name):
    if name == "T":
        if o.args and all(x.op == "arr" for x in o.args):
            return T("arr", *[T("arr", *[r.args[j] for r in o.args]) for j in range(len(o.args[0].args))])
        return o
    if name == "size":
        n = 0
        for x in o.args:
            n += len(x.args) if x.op == "arr" else 1
        return const(n)
    if name == "shape":
        if o.args and o.args[0].op == "arr":
            return T("tuple", const(len(o.args)), const(len(o.args[0].args)))
        return T("tuple", const(len(o.args)))
    return None


def vec_of(t, n=2):
    """Components of a symbolic vector."""
    return [T("item", t, const(i)) for i in range(n)]


def dotp(xs, ys):
    r = None
    for x, y in zip(xs, ys):
        p = arith("mul", x, y)
        r = p if r is None else arith("add", r, p)
    return r if r is not None else ZERO


GEOM_ARGS = {"SE2_from_xytheta": ["xytheta"], "SE2_from_translation_angle": ["t", "theta"], "xytheta_from_SE2": ["pose"], "translation_angle_from_SE2": ["pose"],
             "translation_angle_scale_from_E2": ["pose"],
             "translation_from_SE2": ["pose"], "angle_from_SE2": ["pose"]}
AFFINE = {"shapely.affinity.affine_transform": ["geom", "matrix"], "shapely.affinity.translate": ["geom", "xoff", "yoff", "zoff"],
          "shapely.affinity.rotate": ["geom", "angle", "origin", "use_radians"]}


def poly_points(t):
    """corners of a polygon given by literal points, possibly moved by an affine map"""
    if t.op == "call" and t.args[0] in ("shapely.geometry.Polygon", "shapely.Polygon", "shapely.geometry.polygon.Polygon") and len(t.args[1]) == 1 and not t.args[2]:
        c = t.args[1][0]
        if c.op not in ("tuple", "list", "arr") or len(c.args) < 3 or not any(isinstance(p, T) and p.op in ("tuple", "list", "arr") for p in c.args):
            return None
        if any(p.op in ("tuple", "list", "arr") and len(p.args) != 2 or p.op == "star" for p in c.args):
            return None
        ps = [T("tuple", *p.args) if p.op in ("tuple", "list", "arr") else T("tuple", T("item", p, ZERO), T("item", p, ONE)) for p in c.args]
        return ps[:-1] if ps[0] is ps[-1] else ps
    if t.op == "fn" and t.args[0] == "affine":
        ps = poly_points(t.args[1])
        if ps is None:
            return None
        a, b, d, e, xo, yo = t.args[2:]
        return [T("tuple", arith("add", arith("add", arith("mul", a, p.args[0]), arith("mul", b, p.args[1])), xo),
                  arith("add", arith("add", arith("mul", d, p.args[0]), arith("mul", e, p.args[1])), yo)) for p in ps]
    return None


def se2mat(t):
    """matrix of a planar pose"""
    if t.op == "fn" and t.args[0] == "SE2":
        x, y, th = t.args[1:]
        c, s = (const(f) if isconst(th, 0) else T("fn", n, th) for n, f in (("cos", 1), ("sin", 0)))
        return T("arr", T("arr", c, s if isconst(s) else T("neg", s), x), T("arr", s, c, y), T("arr", ZERO, ZERO, ONE))
    return t


def is_mat3(t):
    return t.op == "arr" and len(t.args) == 3 and all(r.op == "arr" and len(r.args) == 3 for r in t.args)


def se_exp(t):
    """exponential of a multiple of the logarithm of a pose: the pose's power, as a matrix"""
    k = ONE
    if t.op == "mul":
        a, b = t.args
        if a.op == "fn" and a.args[0] == "selog":
            t, k = a, b
        elif b.op == "fn" and b.args[0] == "selog":
            t, k = b, a
    elif t.op == "div" and t.args[0].op == "fn" and t.args[0].args[0] == "selog":
        t, k = t.args[0], arith("div", ONE, t.args[1])
    if not (t.op == "fn" and t.args[0] == "selog"):
        return None
    X = t.args[1]
    if isconst(k, 1):
        return X
    return T("arr", *[T("arr", *[T("fn", "sepow", X, k, const(i), const(j)) if i < 2 else const(int(j == 2)) for j in range(3)]) for i in range(3)])


def mat_inv(t, ip, st):
    """inverse of a rigid motion"""
    if t.op == "fn" and t.args[0] == "SE2":
        m = se2mat(t).args
        c, s, x, y = m[0].args[0], m[1].args[0], m[0].args[2], m[1].args[2]
        ix = T("neg", arith("add", arith("mul", c, x), arith("mul", s, y)))
        iy = arith("sub", arith("mul", s, x), arith("mul", c, y))
        return T("arr", T("arr", c, s, ix), T("arr", T("neg", s), c, iy), T("arr", ZERO, ZERO, ONE))
    return T("fn", "inv", ip.freeze(t, st))


def matmul(a, b, ip=None, st=None):
    a, b = se2mat(a), se2mat(b)
    if a.op == "ite":
        return ite(a.args[0], matmul(a.args[1], b, ip, st), matmul(a.args[2], b, ip, st))
    if b.op == "ite":
        return ite(b.args[0], matmul(a, b.args[1], ip, st), matmul(a, b.args[2], ip, st))
    if a.op in ("list", "tuple"):
        a = to_arr(a) or a
    if b.op in ("list", "tuple"):
        b = to_arr(b) or b
    if a.op == "arr" and a.args and a.args[0].op == "arr":
        n = len(a.args[0].args)
        if b.op == "arr" and b.args and b.args[0].op == "arr":
            cols = list(zip(*[r.args for r in b.args]))
            return T("arr", *[T("arr", *[dotp(r.args, c) for c in cols]) for r in a.args])
        if b.op != "arr":
            if ip is not None:
                bv = [ip.getitem(b, const(i), st) for i in range(n)]
            else:
                bv = vec_of(b, n)
        else:
            bv = b.args
        return T("arr", *[dotp(r.args, bv) for r in a.args])
    if a.op == "arr" and b.op == "arr" and not (b.args and b.args[0].op == "arr"):
        return dotp(a.args, b.args)
    if a.op == "arr" and b.op == "arr":
        cols = list(zip(*[r.args for r in b.args]))
        return T("arr", *[dotp(a.args, c) for c in cols])
    if a.op == "arr" and b.op != "arr":
        return dotp(a.args, [ip.getitem(b, const(i), st) for i in range(len(a.args))] if ip else vec_of(b, len(a.args)))
    if b.op == "arr" and b.args and b.args[0].op != "arr":
        return dotp([ip.getitem(a, const(i), st) for i in range(len(b.args))] if ip else vec_of(a, len(b.args)), b.args)
    return T("matmul", a, b)
