"""Index of the package: modules, imports, classes, MROs. Pure syntax, nothing is imported or executed."""
import ast, os


class AnchorError(Exception):
    """A construct that a rule needs is not in the source."""


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.defs = {}     # name -> ('func',node) ('class',node) ('assign',valuenode,annnode) ('imp',mod,name|None)
        self.stars = []


class ClassInfo:
    def __init__(self, qual, mod, node):
        self.qual, self.mod, self.node = qual, mod, node
        self.name = node.name
        self.methods = {}      # name -> FunctionDef (last wins; property setters kept apart)
        self.setters = {}
        self.attrs = {}        # name -> (valuenode|None, annnode|None), in order
        self.bases = []
        self.decos = []
        self.dataclass = None  # dict of kwargs or None

    def __repr__(self):
        return f"<class {self.qual}>"


class FuncInfo:
    def __init__(self, qual, mod, node, cls=None):
        self.qual, self.mod, self.node, self.cls = qual, mod, node, cls


class Index:
    def __init__(self, root, package="dg_commons"):
        self.root, self.package = root, package
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnchorError(f"package {base} not found")
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    src = open(p, encoding="utf-8").read()
                    self._load(rel, p, src)
        for m in self.modules.values():
            self._collect(m, m.tree.body)
        for m in list(self.modules.values()):
            self._collect_defs(m)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_class_expr(c.mod, b)
                if r:
                    c.bases.append(r)
        self._subs = None

    def _load(self, name, path, src):
        tree = ast.parse(src, path)
        self.modules[name] = Module(name, path, tree, src)

    def _absmod(self, m, level, mod):
        if level == 0:
            return mod
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([mod] if mod else []))

    def _collect(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.defs[n.name] = ("func", n)
            elif isinstance(n, ast.ClassDef):
                m.defs[n.name] = ("class", n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.defs[a.asname or a.name.split(".")[0]] = ("imp", a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                am = self._absmod(m, n.level, n.module)
                for a in n.names:
                    if a.name == "*":
                        m.stars.append(am)
                    else:
                        m.defs[a.asname or a.name] = ("imp", am, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.defs[t.id] = ("assign", n.value, None)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                m.defs[n.target.id] = ("assign", n.value, n.annotation)
            elif isinstance(n, (ast.If, ast.Try)):
                self._collect(m, n.body)
                for x in getattr(n, "orelse", []):
                    self._collect(m, [x])

    def _collect_defs(self, m):
        for name, d in m.defs.items():
            if d[0] == "func":
                q = m.name + "." + name
                self.funcs[q] = FuncInfo(q, m, d[1])
            elif d[0] == "class":
                self._class(m, m.name + "." + name, d[1])

    def _class(self, m, q, node):
        c = ClassInfo(q, m, node)
        self.classes[q] = c
        for d in node.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            c.decos.append(nm)
            if nm == "dataclass":
                c.dataclass = {k.arg: getattr(k.value, "value", None) for k in d.keywords} if isinstance(d, ast.Call) else {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in n.decorator_list):
                    c.setters[n.name] = n
                    continue
                c.methods[n.name] = n
                self.funcs[q + "." + n.name] = FuncInfo(q + "." + n.name, m, n, c)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                c.attrs[n.target.id] = (n.value, n.annotation)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = (n.value, None)
            elif isinstance(n, ast.ClassDef):
                self._class(m, q + "." + n.name, n)

    # -- resolution
    def exported(self, m):
        d = m.defs.get("__all__")
        if d and d[0] == "assign" and isinstance(d[1], (ast.List, ast.Tuple)):
            return [e.value for e in d[1].elts if isinstance(e, ast.Constant)]
        return None

    def lookup(self, modname, name, seen=None):
        """-> ('func',qual) ('class',qual) ('global',Module,name) ('mod',name) ('ext',qual) or None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ("ext", f"{modname}.{name}")
        d = m.defs.get(name)
        if d is None:
            for s in m.stars:
                if s in self.modules:
                    ex = self.exported(self.modules[s])
                    if ex is not None and name not in ex:
                        continue
                    if ex is None and name.startswith("_"):
                        continue
                    r = self.lookup(s, name, seen)
                    if r and r[0] != "ext":
                        return r
                    if r and r[0] == "ext":
                        return r
                else:
                    continue
            if f"{modname}.{name}" in self.modules:
                return ("mod", f"{modname}.{name}")
            for s in m.stars:
                if s not in self.modules and name in _STAR_HINTS.get(s, ()):
                    return ("ext", f"{s}.{name}")
            return None
        if d[0] == "func":
            return ("func", f"{modname}.{name}")
        if d[0] == "class":
            return ("class", f"{modname}.{name}")
        if d[0] == "assign":
            return ("global", m, name)
        if d[0] == "imp":
            if d[2] is None:
                return ("mod", d[1])
            if d[1] in self.modules:
                r = self.lookup(d[1], d[2], seen)
                if r is None and f"{d[1]}.{d[2]}" in self.modules:
                    return ("mod", f"{d[1]}.{d[2]}")
                return r
            return ("ext", f"{d[1]}.{d[2]}")

    def resolve_class_expr(self, m, e):
        if isinstance(e, ast.Subscript):
            return self.resolve_class_expr(m, e.value)
        if isinstance(e, ast.Name):
            r = self.lookup(m.name, e.id)
            if r is None:
                return ("ext", e.id)
            if r[0] == "class":
                return ("class", r[1])
            if r[0] == "global":
                v = r[1].defs[r[2]][1]
                return self.resolve_class_expr(r[1], v) if isinstance(v, (ast.Name, ast.Subscript, ast.Attribute)) else None
            return ("ext", r[1] if isinstance(r[1], str) else str(r))
        if isinstance(e, ast.Attribute):
            b = e.value
            if isinstance(b, ast.Name):
                r = self.lookup(m.name, b.id)
                if r and r[0] == "mod":
                    r2 = self.lookup(r[1], e.attr)
                    if r2 and r2[0] in ("class", "ext"):
                        return (r2[0], r2[1])
                if r and r[0] == "class" and f"{r[1]}.{e.attr}" in self.classes:
                    return ("class", f"{r[1]}.{e.attr}")
            return ("ext", ast.unparse(e))
        return None

    def frozen(self, q):
        """frozen dataclass"""
        for c in self.mro(q):
            for d in self.classes[c].node.decorator_list:
                if isinstance(d, ast.Call) and any(x.arg == "frozen" and isinstance(x.value, ast.Constant) and x.value.value is True for x in d.keywords):
                    return True
        return False

    def mro(self, q):
        out = []

        def lin(c):
            bs = [b[1] for b in self.classes[c].bases if b[0] == "class"]
            seqs = [lin(b) for b in bs] + [list(bs)]
            res = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                for s in seqs:
                    if s and s[0] == h:
                        s.pop(0)
            return res

        for c in lin(q):
            if c not in out:
                out.append(c)
        return out

    def ext_bases(self, q):
        r = []
        for c in self.mro(q):
            for b in self.classes[c].bases:
                if b[0] == "ext":
                    r.append(b[1])
        return r

    def is_subclass(self, q, base):
        if q not in self.classes:
            return q == base
        return base in self.mro(q) or any(b == base or b.endswith("." + base) for b in self.ext_bases(q))

    def subclasses(self, q):
        return [c for c in self.classes if c != q and q in self.mro(c)]

    def find_method(self, q, name, after=None):
        """-> (ClassInfo, FunctionDef) following the MRO (optionally after class `after`)."""
        mro = self.mro(q)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            ci = self.classes[c]
            if name in ci.methods:
                return ci, ci.methods[name]
            if name in ci.attrs:
                v = ci.attrs[name][0]
                # aliases such as __rmul__ = __mul__
                if isinstance(v, ast.Name) and v.id in ci.methods:
                    return ci, ci.methods[v.id]
        return None

    def find_attr(self, q, name):
        for c in self.mro(q):
            ci = self.classes[c]
            if name in ci.attrs:
                return ci, ci.attrs[name]
            if name in ci.methods:
                return None
        return None

    def dc_fields(self, q):
        """[(name, owner ClassInfo, valuenode, annnode)] of a dataclass, in constructor order."""
        out = {}
        for c in reversed(self.mro(q)):
            ci = self.classes[c]
            if ci.dataclass is None:
                continue
            for n, (v, a) in ci.attrs.items():
                if a is None:
                    continue
                s = ast.unparse(a)
                if s.startswith("ClassVar") or s.startswith("typing.ClassVar"):
                    continue
                out[n] = (n, ci, v, a)
        return list(out.values())

    def is_dataclass(self, q):
        return any(self.classes[c].dataclass is not None for c in self.mro(q))

    # -- anchors by name, so that moving a class between modules is no error
    def cls(self, name, hint=None):
        cand = [q for q in self.classes if q.split(".")[-1] == name]
        if hint:
            h = [q for q in cand if hint in q]
            cand = h or cand
        if len(cand) != 1:
            raise AnchorError(f"class {name}: {len(cand)} candidates {cand}")
        return self.classes[cand[0]]

    def func(self, name, hint=None):
        cand = [q for q, f in self.funcs.items() if f.cls is None and q.split(".")[-1] == name]
        if hint:
            h = [q for q in cand if hint in q]
            cand = h or cand
        if len(cand) != 1:
            raise AnchorError(f"function {name}: {len(cand)} candidates {cand}")
        return self.funcs[cand[0]]

    def method(self, clsname, name, hint=None):
        c = self.cls(clsname, hint)
        r = self.find_method(c.qual, name)
        if r is None:
            raise AnchorError(f"method {clsname}.{name} not found")
        return FuncInfo(r[0].qual + "." + name, r[0].mod, r[1], r[0])


_STAR_HINTS = {}
