"""Loops and comprehensions: one abstract iteration over a symbolic element, fusion with comprehensions, folds."""
import ast
from .terms import *
from .calls import choice, int_choice, literal_choice, guarded_pairs
from .types import MAPPINGS


def mentions(t, x):
    return contains(t, lambda y: y is x)


def binders(t, pred):
    return contains(t, pred)


class LoopMixin:
    # ------------------------------------------------------------------ iterables
    def iter_norm(self, it, st):
        while True:
            c = self.content(it, st)
            if c is not None and it.op == "ref":
                it = c
                continue
            if it.op == "mcall" and it.args[1] == "keys" and not it.args[2]:
                it = self.with_ver(it.args[0], it.args[4] if len(it.args) > 4 else None)
                continue
            if it.op == "fn" and it.args[0] in ("list", "tuple", "iter") and len(it.args) == 2:
                it = it.args[1]
                continue
            if it.op == "dict":
                return T("tuple", *[k for k, _ in it.args])
            d, view = (it, "keys") if it.op == "fn" else (it.args[0], it.args[1]) if it.op == "mcall" and it.args[1] in ("items", "values") and not it.args[2] else (None, None)
            if d is not None and d.op == "ref":
                d = self.content(d, st)
            ps = guarded_pairs(d) if d is not None else None
            if ps and all(isconst(k) for _, k, _ in ps) and len({k for _, k, _ in ps}) == len(ps):
                el = lambda k, v: k if view == "keys" else v if view == "values" else T("tuple", k, v)
                return T("concat", *[T("list", el(k, v)) if c is TRUE else T("guarded", c, T("list", el(k, v))) for c, k, v in ps])
            x = self.iterated(it, st)
            if x is not it:
                it = x
                continue
            return it

    def iter_ver(self, it, st):
        v = self.hget(st, it, "#ver") if it.op != "ref" else None
        return self.with_ver(it, v)

    def with_ver(self, o, v):
        """the iterable o in version v; the keys of a mapping are not affected by changes inside its values"""
        ty = self.typeof(o)
        if ty is not None and ty.name in MAPPINGS:
            while v is not None and v.op == "loopwr" and v.args[3] is not o:
                v = v.args[0]
        return T("versioned", o, v) if v is not None and v.op != "ver0" else o

    def parts(self, it, st):
        """Concatenations are iterated part by part."""
        if it.op == "ite":
            pass
        if it.op == "concat":
            return [p for x in it.args for p in self.parts(self.iter_norm(x, st), st)]
        if it.op == "lappend":
            return self.parts(self.iter_norm(it.args[0], st), st) + [T("list", it.args[1])]
        return [it]

    def elem_for(self, it, depth, st):
        """-> (loop iter term, element value, element condition, binder)"""
        if it.op == "comp" and it.args[0] in ("list", "gen", "set"):
            _, d, src, c, v = it.args
            if v.op == "spread":
                el = T("elem", it, depth)
                return it, el, TRUE, el
            old = T("elem", src, d)
            new = T("elem", src, depth)
            m = {old: new} if old is not new else {}
            m[T("index", src, d)] = T("index", src, depth)
            if src.op == "fn" and src.args[0] == "zip":
                for a in src.args[1:]:
                    m[T("elem", a, d)] = T("elem", a, depth)
            return src, subst(v, m), subst(c, m), new
        if it.op == "comp" and it.args[0] == "dict":
            _, d, src, c, v = it.args
            m = {T("elem", src, d): T("elem", src, depth)}
            return src, subst(v.args[0], m), subst(c, m), T("elem", src, depth)
        if it.op == "mcall" and it.args[1] in ("items", "values") and not it.args[2]:
            o = it.args[0]
            src = self.with_ver(o, it.args[4] if len(it.args) > 4 else None)
            if o.op == "comp" and o.args[0] == "dict":
                _, d, src, c, v = o.args
                m = {T("elem", src, d): T("elem", src, depth)}
                k2, v2, c2 = subst(v.args[0], m), subst(v.args[1], m), subst(c, m)
                return src, (T("tuple", k2, v2) if it.args[1] == "items" else v2), c2, T("elem", src, depth)
            k = T("elem", src, depth)
            from .types import elem_type
            ty = elem_type(self.typeof(o))
            if ty:
                self.types[k] = ty
            v = self.getitem(o, k, st)
            return src, (T("tuple", k, v) if it.args[1] == "items" else v), TRUE, k
        if it.op == "fn" and it.args[0] == "enumerate":
            src, e, c, b = self.elem_for(self.iter_norm(it.args[1], st), depth, st)
            return src, T("tuple", T("index", src, depth), e), c, b
        if it.op == "fn" and it.args[0] == "zip" and len(it.args) > 2:
            es = []
            for a in it.args[1:]:
                a = self.iter_norm(a, st)
                _, e, _, _ = self.elem_for(a, depth, st)
                es.append(e)
            return it, T("tuple", *es), TRUE, T("elem", it, depth)
        if it.op == "fn" and it.args[0] == "combinations" and len(it.args) >= 3 and isconst(it.args[2]):
            el = T("elem", it, depth)
            n = it.args[2].args[0]
            from .types import elem_type
            ty = elem_type(self.typeof(it.args[1]))
            xs = []
            for i in range(n):
                x = T("item", el, const(i))
                if ty:
                    self.types[x] = ty
                xs.append(x)
            return it, T("tuple", *xs), TRUE, el
        if it.op == "fn" and it.args[0] == "sorted":
            el = T("elem", it, depth)
            from .types import elem_type
            ty = elem_type(self.typeof(it.args[1]))
            if ty:
                self.types[el] = ty
            return it, el, TRUE, el
        src = self.iter_ver(it, st)
        el = T("elem", src, depth)
        from .types import elem_type
        ty = elem_type(self.typeof(it))
        if ty and el not in self.types:
            self.types[el] = ty
        return src, el, TRUE, el

    # ------------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, st):
        v = self.comprehension("list", n.generators, n.elt, None, st, n)
        if v.op == "tuple":
            v = T("list", *v.args)
        r = self.new_ref("#list")
        st.heap[(r, "#v")] = v
        return r

    def e_SetComp(self, n, st):
        v = self.comprehension("list", n.generators, n.elt, None, st, n)
        r = self.new_ref("#set")
        st.heap[(r, "#v")] = T("set", *v.args) if v.op in ("tuple", "list") else T("comp", "set", *v.args[1:]) if v.op == "comp" else v
        return r

    def e_GeneratorExp(self, n, st):
        v = self.comprehension("list", n.generators, n.elt, None, st, n)
        return T("list", *v.args) if v.op == "tuple" else v

    def e_DictComp(self, n, st):
        v = self.comprehension("dict", n.generators, n.key, n.value, st, n)
        r = self.new_ref("#dict")
        st.heap[(r, "#v")] = v
        return r

    def comprehension(self, kind, gens, elt, val, st, node):
        fid = self.cur().fid
        env = st.frames[fid]
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        saved = {k: env[k] for k in names if k in env}
        try:
            def value(s):
                if kind == "dict":
                    k = self.eval(elt, s)
                    return T("tuple", k, self.eval(val, s))
                return self.eval(elt, s)

            def gen(i, s):
                g = gens[i]
                it = self.eval(g.iter, s)

                def body(e, s2):
                    self.assign(g.target, e, s2, node)
                    if i + 1 < len(gens):
                        inner = gen(i + 1, s2)
                        return T("spread", inner)
                    v = value(s2)
                    return self.freeze(v, s2) if isinstance(v, T) and self._fresh_container(v) else v

                def flt(e, s2):
                    self.assign(g.target, e, s2, node)
                    cs = []
                    for c in g.ifs:
                        x = self.cond(c, s2)
                        cs.append(x)
                        s2.pc = land(s2.pc, x)
                    return land(*cs)
                return self.comp_over(kind, it, s, body, flt if g.ifs else None)

            return gen(0, st)
        finally:
            e = st.frames[fid]
            for k in names:
                e.pop(k, None)
            e.update(saved)

    def _fresh_container(self, v):
        return v.op == "ref" and v.args[1].startswith("#")

    def comp_over(self, kind, it, st, body, flt):
        it = self.iter_norm(it, st)
        if it.op == "ite":
            pc0 = st.pc
            c = self.simp(it.args[0], pc0)
            rs = []
            for k, x in ((c, it.args[1]), (lnot(c), it.args[2])):
                st.pc = land(pc0, k)
                rs.append(self.comp_over(kind, x, st, body, flt) if k is not FALSE and st.pc is not FALSE else None)
                st.pc = pc0
            a, b = rs
            return a if b is None else b if a is None else ite(c, a, b)
        if it.op in ("tuple", "list", "arr", "set") and len(it.args) <= 24 and not any(isinstance(x, T) and x.op == "star" for x in it.args):
            out, ok = [], True
            res = []
            for x in it.args:
                pc0 = st.pc
                c = flt(x, st) if flt else TRUE
                c = self.simp(c, pc0)
                st.pc = land(pc0, c)
                if st.pc is FALSE:
                    st.pc = pc0
                    continue
                v = body(x, st)
                st.pc = pc0
                res.append((c, v))
            if all(c is TRUE for c, _ in res):
                vs = []
                for _, v in res:
                    if v.op == "spread" and v.args[0].op in ("tuple", "list"):
                        vs.extend(v.args[0].args)
                    elif v.op == "spread" and v.args[0].op == "dict":
                        vs.extend(T("tuple", *kv) for kv in v.args[0].args)
                    else:
                        vs.append(v)
                if kind == "dict":
                    return T("dict", *[(v.args[0], v.args[1]) for v in vs]) if all(v.op == "tuple" for v in vs) else T("fn", "dictof", *vs)
                return T("tuple", *vs)
            if kind == "dict":
                return T("fn", "dictof", *[T("guarded", c, v) for c, v in res])
            if sum(c is not TRUE for c, _ in res) <= 5 and kind != "set" and not any(v.op == "spread" for _, v in res):
                t = T("list")
                for c, v in res:
                    t = self.lappend(t, v) if c is TRUE else ite(c, self.lappend(t, v), t)
                return t
            return T("concat", *[T("list", v) if c is TRUE else T("guarded", c, T("list", v)) for c, v in res])
        ps = self.parts(it, st)
        if len(ps) > 1:
            from .calls import concat
            rs = [self.comp_over(kind, p, st, body, flt) for p in ps]
            return concat(*rs) if kind != "dict" else T("fn", "dictcat", *rs)
        depth = len(self.loops)
        src, e, c0, b = self.elem_for(ps[0], depth, st)
        pc0 = st.pc
        self.nloop += 1
        self.loops.append((src, depth, "for", self.nloop))
        try:
            st.pc = land(pc0, c0)
            c = land(c0, flt(e, st) if flt else TRUE)
            st.pc = land(pc0, c)
            v = body(e, st)
        finally:
            self.loops.pop()
            st.pc = pc0
        if v.op == "spread" and v.args[0].op in ("tuple", "list") and len(v.args[0].args) == 1 and kind == "list":
            v = v.args[0].args[0]
        if kind == "list" and v is b and c is TRUE and src is ps[0]:
            return ps[0] if ps[0].op == "comp" else T("comp", "list", depth, src, TRUE, v)
        return T("comp", kind, depth, src, c, v)

    def iter_to_comp(self, it, st):
        it2 = self.iter_norm(it, st)
        if it2.op == "mcall" and it2.args[1] in ("items", "values"):
            return self.comp_over("list", it2, st, lambda e, s: e, None)
        return None

    # ------------------------------------------------------------------ for
    def s_For(self, s, st, out):
        it = self.iter_norm(self.eval(s.iter, st), st)
        if st.pc is FALSE:
            return False
        return self.for_over(it, s, st, out)

    def for_over(self, it, s, st, out):
        if it.op == "ite":
            c = self.simp(it.args[0], st.pc)
            k = truthy_const(c)
            if k is not None:
                return self.for_over(self.iter_norm(it.args[1] if k else it.args[2], st), s, st, out)
            a, b = st.fork(), st.fork()
            a.pc, b.pc = land(st.pc, c), land(st.pc, lnot(c))
            la = self.for_over(self.iter_norm(it.args[1], a), s, a, out)
            lb = self.for_over(self.iter_norm(it.args[2], b), s, b, out)
            if la and lb:
                st.become(self.merge2(c, a, b, st.pc))
            elif la:
                st.become(a)
            elif lb:
                st.become(b)
            else:
                st.pc = FALSE
                return False
            return True
        if it.op in ("tuple", "list", "arr", "set") and len(it.args) <= 24 and not any(isinstance(x, T) and x.op == "star" for x in it.args):
            return self.unrolled(it.args, s, st, out)
        ps = self.parts(it, st)
        if len(ps) > 1:
            brk = []
            for p in ps:
                o2 = []
                alive = self.for_over1(p, s, st, o2)
                brk += [o for o in o2 if o.kind == "break"]
                out.extend(o for o in o2 if o.kind != "break")
                if not alive:
                    break
            return self.join_breaks(brk, st, alive)
        return self.for_over1(ps[0], s, st, out)

    def for_over1(self, it, s, st, out):
        if it.op in ("tuple", "list", "arr", "set") and len(it.args) <= 24 and not any(isinstance(x, T) and x.op == "star" for x in it.args):
            return self.unrolled(it.args, s, st, out)
        if it.op == "guarded":
            return self.branch_fn(it.args[0], st, lambda a: self.for_over1(it.args[1], s, a, out))
        depth = len(self.loops)
        src, e, c0, b = self.elem_for(it, depth, st)

        def start(s2):
            self.assign(s.target, e, s2, s)
            s2.pc = land(s2.pc, c0)
        return self.loop(src, depth, "for", b, start, s.body, s.orelse, st, out, s)

    def branch_fn(self, c, st, f):
        a = st.fork()
        a.pc = land(st.pc, c)
        b = st.fork()
        b.pc = land(st.pc, lnot(c))
        la = f(a)
        if la:
            st.become(self.merge2(c, a, b, st.pc))
        else:
            st.become(b)
        return True

    def unrolled(self, xs, s, st, out):
        breaks = []
        alive = True
        for x in xs:
            pc0 = st.pc
            self.assign(s.target, x, st, s)
            o2 = []
            alive = self.exec_block(s.body, st, o2)
            cont = []
            for o in o2:
                if o.kind == "break":
                    breaks.append(o)
                elif o.kind == "continue":
                    cont.append(o)
                else:
                    out.append(o)
            ss = [o.st for o in cont] + ([st.fork()] if alive else [])
            if not ss:
                alive = False
                break
            m = ss[-1]
            for y in reversed(ss[:-1]):
                m = self.merge2(self.rel(y.pc, pc0), y, m, pc0)
            st.become(m)
            alive = True
        if alive and s.orelse:
            alive = self.exec_block(s.orelse, st, out)
        return self.join_breaks(breaks, st, alive)

    def join_breaks(self, breaks, st, alive):
        ss = [o.st for o in breaks] + ([st.fork()] if alive else [])
        if not ss:
            st.pc = FALSE
            return False
        m = ss[-1]
        for y in reversed(ss[:-1]):
            m = self.merge2(y.pc if not conjuncts(m.pc) else self.rel(y.pc, self._common(y.pc, m.pc)), y, m, TRUE)
        st.become(m)
        return True

    def _common(self, a, b):
        cb = conjuncts(b)
        return land(*[x for x in conjuncts(a) if x in cb])

    # ------------------------------------------------------------------ while
    def while_counts(self, s, st):
        """whether the loop counts: its condition reads a local integer known at this point that the body changes"""
        fr = self.cur()
        changed = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for x in ast.walk(s.test):
            if isinstance(x, ast.Name) and x.id in changed:
                v = st.frames.get(fr.fid, {}).get(x.id)
                k = choice(v) if isinstance(v, T) else None
                if k is not None and k.op in ("const", "ite") and int_choice(k):
                    return True
        # or it consumes a list of known length
        eaten = {ast.unparse(x.func.value) for b in s.body for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "popleft")}
        for x in ast.walk(s.test):
            if isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) in eaten and all(isinstance(y, (ast.Name, ast.Attribute, ast.expr_context)) for y in ast.walk(x)):
                s2 = st.fork()
                c = self.content(self.eval(x, s2), s2)
                if c is not None and literal_choice(c):
                    return True
        return False

    def while_unrolled(self, s, st, out, limit=12):
        """A counting loop, iteration by iteration; False if it does not end within the limit."""
        keep = st.fork()
        ne, nr = len(self.effects), len(self.raises)
        ends, res = [], []
        for _ in range(limit):
            c = self.simp(self.cond(s.test, st), st.pc)
            stop = st.fork()
            stop.pc = land(st.pc, lnot(c))
            if stop.pc is not FALSE:
                ends.append(stop)
            st.pc = land(st.pc, c)
            if any(x.op == "outofrange" for x in subterms(c)) and st.pc is not FALSE:
                self.raises.append(Outcome("raise", T("call", "builtins.IndexError", (), ()), st.fork(), s.lineno))
                st.pc = FALSE
            if st.pc is FALSE:
                break
            pc0 = st.pc
            o2 = []
            alive = self.exec_block(s.body, st, o2)
            ends += [o.st for o in o2 if o.kind == "break"]
            res += [o for o in o2 if o.kind not in ("break", "continue")]
            ss = [o.st for o in o2 if o.kind == "continue"] + ([st.fork()] if alive else [])
            if not ss:
                st.pc = FALSE
                break
            m = ss[-1]
            for y in reversed(ss[:-1]):
                m = self.merge2(self.rel(y.pc, pc0), y, m, pc0)
            st.become(m)
        else:
            del self.effects[ne:]
            del self.raises[nr:]
            st.become(keep)
            return None
        out.extend(res)
        return self.join_breaks([Outcome("break", None, x) for x in ends], st, False)

    def s_While(self, s, st, out):
        if not s.orelse and (self.unroll or self.while_counts(s, st)):
            r = self.while_unrolled(s, st, out, self.unroll or 12)
            if r is not None:
                return r
        depth = len(self.loops)
        wid = T("while", (self.cur().qual, depth, s.lineno and 0))
        holder = {}

        def start(s2):
            c = self.cond(s.test, s2)
            holder["c"] = c
            s2.pc = land(s2.pc, self.simp(c, s2.pc))
        return self.loop(wid, depth, "while", None, start, s.body, s.orelse, st, out, s, holder)

    # ------------------------------------------------------------------ generic loop
    def loop(self, src, depth, kind, binder, start, body, orelse, st, out, node, holder=None):
        entry_pc = st.pc
        pre = st.fork()
        self.nloop += 1
        lid = self.nloop

        def has_binder(t):
            return isinstance(t, T) and contains(t, lambda y: (y.op in ("elem", "index") and y.args[1] == depth and y.args[0] is src)
                                                 or (src.op == "fn" and y.op == "elem" and y.args[1] == depth and y.args[0] in src.args))

        def run_body(init):
            s2 = init
            o2 = []
            self.loops.append((src, depth, kind, lid))
            try:
                start(s2)
                base = s2.pc
                if s2.pc is FALSE:
                    return None, o2, base
                alive = self.exec_block(body, s2, o2)
            finally:
                self.loops.pop()
            ss = [o.st for o in o2 if o.kind == "continue"] + ([s2] if alive else [])
            if not ss:
                return None, o2, base
            m = ss[-1]
            for y in reversed(ss[:-1]):
                m = self.merge2(self.rel(y.pc, base), y, m, base)
            # the element condition only filters
            c0 = self.rel(base, entry_pc)
            if c0 is not TRUE and kind == "for":
                skip = init0.fork()
                m = self.merge2(c0, m, skip, entry_pc)
            return m, o2, base

        # pass 1.. : find what the body changes
        changed_env, changed_heap = set(), set()
        for _ in range(4):
            ne, nr = len(self.effects), len(self.raises)
            oid, fid0 = self.noid, self.nfid
            init0 = self.mu_state(pre, changed_env, changed_heap, depth, src)
            m, o2, base = run_body(init0.fork())
            del self.effects[ne:]
            del self.raises[nr:]
            new_e, new_h = set(changed_env), set(changed_heap)
            ends = ([m] if m is not None else []) + [o.st for o in o2 if o.kind == "break"]
            for x in ends:
                for f, env in x.frames.items():
                    if f not in pre.frames:
                        continue
                    for k, v in env.items():
                        if k in init0.frames[f] and init0.frames[f][k] is not v:
                            new_e.add((f, k))
                for k, v in x.heap.items():
                    if k[0].op == "ref" and not self._known(k[0], pre):
                        continue
                    iv = init0.heap.get(k)
                    if iv is not v:
                        if iv is None and v is self.default_heap(k, init0):
                            continue
                        if self._per_elem(k, has_binder):
                            continue
                        new_h.add(k)
            if new_e == changed_env and new_h == changed_heap:
                break
            changed_env, changed_heap = new_e, new_h
        # real pass
        init0 = self.mu_state(pre, changed_env, changed_heap, depth, src)
        nr = len(self.raises)
        m, o2, base = run_body(init0.fork())
        wc = holder.get("c") if holder else None
        # raises inside the loop
        for o in self.raises[nr:]:
            c = self.rel(o.st.pc, entry_pc)
            o.st.pc = land(entry_pc, T("any", src, depth, c))
        # outcome of returns / breaks
        rets = [o for o in o2 if o.kind == "return"]
        brks = [o for o in o2 if o.kind == "break"]
        exit_conds = []
        if rets or brks or len(self.raises) > nr:
            self.early[lid] = [(o.kind, self.rel(o.st.pc, entry_pc)) for o in rets + brks] + [("raise", self.rel(o.st.pc, entry_pc)) for o in self.raises[nr:]]
        for o in rets:
            c = self.rel(o.st.pc, entry_pc)
            a = T("any", src, depth, c)
            exit_conds.append(a)
            v = o.value
            if isinstance(v, T) and (has_binder(v) or contains(v, lambda y: y.op == "mu" and y.args[0] == depth)):
                v = T("first", src, depth, c, self.freeze(v, o.st))
            o.st.pc = land(entry_pc, a)
            o.value = v
            out.append(o)
        post = pre.fork()
        # values after normal exhaustion
        if m is not None:
            for (f, k) in changed_env:
                i = pre.frames[f].get(k)
                nx = m.frames[f].get(k, i)
                post.frames[f][k] = self.fold(k, src, depth, i, nx, T("mu", depth, src, (f, k)), wc)
            for k in changed_heap:
                i = pre.heap.get(k)
                if i is None:
                    i = self.default_heap(k, pre)
                nx = m.heap.get(k)
                if nx is None:
                    nx = i
                post.heap[k] = self.fold(k[1], src, depth, i, nx, T("mu", depth, src, k), wc)
            for k, v in m.heap.items():
                if k in changed_heap or pre.heap.get(k) is v:
                    continue
                if k[0].op == "ref" and not self._known(k[0], pre):
                    post.heap[k] = v
                    continue
                if self._per_elem(k, has_binder):
                    root = self._root(k, has_binder)
                    old = self.hget(post, root, "#ver") or T("ver0")
                    key = k[1][1] if isinstance(k[1], tuple) else k[1]
                    post.heap[(root, "#ver")] = T("loopwr", old, src, depth, k[0], key if isinstance(key, T) else const(key), v)
                    for kk in [x for x in post.heap if x[0] is root and isinstance(x[1], tuple)]:
                        del post.heap[kk]
            # variables first defined in the body
            for f, env in m.frames.items():
                if f in post.frames:
                    for k, v in env.items():
                        if k not in post.frames[f]:
                            post.frames[f][k] = T("last", src, depth, v) if has_binder(v) else v
                else:
                    post.frames[f] = dict(env)
        for o in brks:
            c = self.rel(o.st.pc, entry_pc)
            a = T("any", src, depth, c)
            exit_conds.append(a)
            bs = post.fork()
            bs.pc = land(entry_pc, a)
            for (f, k) in set(changed_env) | {(f, k) for f in pre.frames for k in o.st.frames.get(f, {}) if k not in pre.frames[f]}:
                v = o.st.frames[f].get(k)
                if v is None:
                    continue
                bs.frames[f][k] = T("first", src, depth, c, v) if (has_binder(v) or contains(v, lambda y: y.op == "mu" and y.args[0] == depth)) else v
            for k in changed_heap:
                v = o.st.heap.get(k)
                if v is not None:
                    bs.heap[k] = T("first", src, depth, c, v) if (has_binder(v) or contains(v, lambda y: y.op == "mu" and y.args[0] == depth)) else v
            o.st = bs
        post.pc = land(entry_pc, *[lnot(a) for a in exit_conds])
        if kind == "while" and wc is not None:
            if wc is TRUE and not brks:
                post.pc = FALSE
        st.become(post)
        alive = st.pc is not FALSE
        if alive and orelse:
            alive = self.exec_block(orelse, st, out)
        if brks:
            return self.join_breaks(brks, st, alive)
        return alive

    def _known(self, ref, pre):
        return any(k[0] is ref for k in pre.heap) or any(k[0] is ref for k in self.base_heap)

    def _per_elem(self, k, has_binder):
        return has_binder(k[0]) or (isinstance(k[1], tuple) and has_binder(k[1][1]))

    def _root(self, k, has_binder):
        o = k[0]
        while has_binder(o) and o.args and isinstance(o.args[0], T):
            o = o.args[0]
        return o

    def mu_state(self, pre, ce, ch, depth, src):
        s = pre.fork()
        for (f, k) in ce:
            i = pre.frames[f].get(k)
            mu = T("mu", depth, src, (f, k))
            if i is not None and mu not in self.types:
                ty = self.typeof(i)
                if ty is not None and i.op != "ref":
                    self.types[mu] = ty
                elif ty is not None and ty.name in self.ix.classes:
                    self.types[mu] = ty
            s.frames[f][k] = mu
        for k in ch:
            i = pre.heap.get(k)
            mu = T("mu", depth, src, k)
            if i is not None:
                ty = self.typeof(i)
                if ty is not None:
                    self.types[mu] = ty
            s.heap[k] = mu
        return s

    def fold(self, name, src, depth, init, nxt, mu, wc):
        self.carried[mu] = (init, nxt)
        if nxt is mu:
            return init
        if init is None:
            init = T("undef")
        # unconditional / conditional append
        r = self._acc(nxt, mu)
        if r is not None:
            kind, c, v = r
            free = lambda t: not contains(t, lambda y: y is mu)
            if wc is None and free(c) and all(free(x) for x in v):
                if kind == "append":
                    comp = T("comp", "list", depth, src, c, v[0])
                    from .calls import concat
                    return concat(init, comp) if init.op in ("list", "concat", "comp", "lappend", "set") and init.args else (comp if init.op == "list" else (
                        T("comp", "set", depth, src, c, v[0]) if init.op == "set" else concat(init, comp)))
                if kind == "dset":
                    comp = T("comp", "dict", depth, src, c, T("tuple", *v))
                    return comp if init.op == "dict" and not init.args else T("dupdate", init, comp)
                if kind == "add":
                    from .calls import arith
                    s = T("sum", src, depth, c, v[0])
                    return s if isconst(init, 0) else arith("add", init, s)
                if kind == "flag":
                    return lor(init, T("any", src, depth, c)) if True else None
                if kind == "unflag":
                    return land(init, lnot(T("any", src, depth, c)))
                if kind == "extend":
                    comp = T("comp", "list", depth, src, c, T("spread", v[0]))
                    from .calls import concat
                    return comp if init.op == "list" and not init.args else concat(init, comp)
        return T("fold", src, depth, init, nxt, mu) if wc is None else T("fold", T("whilecond", src, wc), depth, init, nxt, mu)

    def _acc(self, n, mu):
        """(kind, cond, values) if n updates mu by one accumulation step."""
        if n.op == "lappend" and n.args[0] is mu:
            return "append", TRUE, (n.args[1],)
        if n.op == "concat" and len(n.args) >= 2 and n.args[0] is mu:
            rest = n.args[1:]
            if len(rest) == 1 and rest[0].op == "list" and len(rest[0].args) == 1:
                return "append", TRUE, (rest[0].args[0],)
            return "extend", TRUE, (rest[0] if len(rest) == 1 else T("concat", *rest),)
        if n.op == "dset" and n.args[0] is mu:
            return "dset", TRUE, (n.args[1], n.args[2])
        if n.op == "add" and n.args[0] is mu:
            return "add", TRUE, (n.args[1],)
        if n.op == "add" and n.args[1] is mu:
            return "add", TRUE, (n.args[0],)
        if n.op == "sub" and n.args[0] is mu:
            return "add", TRUE, (T("neg", n.args[1]),)
        if n.op == "or" and mu in n.args:
            return "flag", lor(*[x for x in n.args if x is not mu]), ()
        if n.op == "and" and mu in n.args:
            return "unflag", lnot(land(*[x for x in n.args if x is not mu])), ()
        if n.op == "ite":
            c, a, b = n.args
            if b is mu:
                if isconst(a, True):
                    return "flag", c, ()
                if isconst(a, False):
                    return "unflag", c, ()
                r = self._acc(a, mu)
                if r:
                    return r[0], land(c, r[1]), r[2]
            if a is mu:
                if isconst(b, True):
                    return "flag", lnot(c), ()
                if isconst(b, False):
                    return "unflag", lnot(c), ()
                r = self._acc(b, mu)
                if r:
                    return r[0], land(lnot(c), r[1]), r[2]
            ra, rb = self._acc(a, mu), self._acc(b, mu)
            if ra and rb and ra[0] == rb[0] and ra[1] is TRUE and rb[1] is TRUE:
                return ra[0], TRUE, tuple(ite(c, x, y) for x, y in zip(ra[2], rb[2]))
        if n.op == "const" and n.args[0] is True:
            return "flag", TRUE, ()
        return None
