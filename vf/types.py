"""Declared types from annotations (used to find the class of symbolic values)."""
import ast

MAPPINGS = {"Mapping", "MutableMapping", "dict", "Dict", "frozendict", "defaultdict", "OrderedDict", "SortedDict"}
SEQS = {"list", "List", "Sequence", "tuple", "Tuple", "set", "Set", "frozenset", "FrozenSet", "Iterable", "Iterator",
        "Collection", "Generator", "MutableSequence", "AbstractSet"}


class Ty:
    __slots__ = ("name", "args")

    def __init__(self, name, args=()):
        self.name, self.args = name, tuple(args)

    def __repr__(self):
        return self.name + (f"[{', '.join(map(repr, self.args))}]" if self.args else "")


class Types:
    def __init__(self, index):
        self.ix = index
        self._attr = {}

    def ann(self, mod, e, tv=None):
        """Annotation AST -> Ty or None."""
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                try:
                    return self.ann(mod, ast.parse(e.value, mode="eval").body, tv)
                except SyntaxError:
                    return None
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            ts = [self.ann(mod, x, tv) for x in (e.left, e.right) if not (isinstance(x, ast.Constant) and x.value is None)]
            ts = [t for t in ts if t]
            return ts[0] if len(ts) == 1 else (Ty("Union", ts) if ts else None)
        if isinstance(e, ast.Tuple) or isinstance(e, ast.List):
            return Ty("tuple", [self.ann(mod, x, tv) for x in e.elts])
        if isinstance(e, ast.Subscript):
            h = self.ann(mod, e.value, tv)
            sl = e.slice
            args = [self.ann(mod, x, tv) for x in (sl.elts if isinstance(sl, ast.Tuple) else [sl])]
            if h is None:
                return None
            if h.name == "Optional":
                return args[0]
            if h.name == "Union":
                args = [a for a in args if a]
                return args[0] if len(args) == 1 else Ty("Union", args)
            if h.name in ("Type", "type"):
                return Ty("type", args)
            return Ty(h.name, args)
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name):
                r = self.ix.lookup(mod.name, e.id)
            else:
                r = self.ix.resolve_class_expr(mod, e)
            if r is None:
                nm = e.id if isinstance(e, ast.Name) else e.attr
                return Ty(nm)
            if r[0] == "class":
                return Ty(r[1])
            if r[0] == "ext":
                return Ty(r[1].split(".")[-1])
            if r[0] == "global":
                m, n = r[1], r[2]
                v = m.defs[n][1]
                if isinstance(v, ast.Call) and getattr(v.func, "id", "") == "TypeVar":
                    for k in v.keywords:
                        if k.arg == "bound":
                            return self.ann(m, k.value)
                    return None
                if isinstance(v, ast.Call) and getattr(v.func, "id", "") == "NewType":
                    return self.ann(m, v.args[1]) if len(v.args) > 1 else None
                if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)):
                    return self.ann(m, v)
                return None
        return None

    def attr_type(self, q, name):
        """Declared type of attribute `name` of class q."""
        key = (q, name)
        if key in self._attr:
            return self._attr[key]
        self._attr[key] = None
        ty = None
        for c in self.ix.mro(q):
            ci = self.ix.classes[c]
            if name in ci.attrs and ci.attrs[name][1] is not None:
                ty = self.ann(ci.mod, ci.attrs[name][1])
                break
            if name in ci.methods:
                m = ci.methods[name]
                if any(_deco(d) in ("property", "cached_property", "abstractproperty") for d in m.decorator_list):
                    ty = self.ann(ci.mod, m.returns)
                break
            found = None
            for m in ci.methods.values():
                for n in ast.walk(m):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name \
                            and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                        found = self.ann(ci.mod, n.annotation)
                    elif isinstance(n, ast.Assign) and m.name == "__init__" and found is None:
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == name and isinstance(n.value, ast.Name):
                                for a in m.args.args + m.args.kwonlyargs:
                                    if a.arg == n.value.id:
                                        found = self.ann(ci.mod, a.annotation)
            if found:
                ty = found
                break
        self._attr[key] = ty
        return ty


def _deco(d):
    f = d.func if isinstance(d, ast.Call) else d
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)


def decos(fn):
    return [_deco(d) for d in fn.decorator_list]


def item_type(ty):
    if ty is None:
        return None
    if ty.name in MAPPINGS and len(ty.args) == 2:
        return ty.args[1]
    if ty.name in ("tuple", "Tuple"):
        return ty.args[0] if ty.args and all(a is None or repr(a) == repr(ty.args[0]) for a in ty.args[1:]) else None
    if ty.name in SEQS and ty.args:
        return ty.args[0]
    return None


def elem_type(ty):
    if ty is None:
        return None
    if ty.name in MAPPINGS:
        return ty.args[0] if ty.args else None
    if ty.name in SEQS and ty.args:
        return ty.args[0]
    return None
