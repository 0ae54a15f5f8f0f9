"""Symbolic pose, footprint and impact mesh of every model, compared with its outline corner by corner."""
from ..calls import poly_points, se2mat
from ..modelx import *
from ..norm import Norm
from ..types import Ty


def check(rep):
    ix = rep.ix
    rep.rule("pose", "the pose is the model's own position and heading")
    rep.rule("footprint", "the footprint is the body outline moved by the pose")
    rep.rule("mesh", "impact mesh pieces are the footprint or triangles from its centroid over consecutive corners")
    rep.rule("cover", "the pieces touch the whole boundary")
    rep.rule("sides", "left, right, front and back name the matching sides")
    rep.rule("current", "they are those of the current state, whatever was read before")
    rep.rule("pure", "reading pose, footprint or mesh changes nothing")
    qs = concrete_models(ix)
    rep.count("models", len(qs), len(MODELS))
    N = Norm()
    for q in qs:
        m = MX(ix, q)
        ip, name = m.ip, m.name

        def get(meth):
            n = len(ip.effects)
            v, st, ef, ra = m.run(meth)
            bad = [e for e in ef if e.kind in ("store", "setitem", "mutate") and root(e.ftarget or e.target) in (m.ref, m.state_t)]
            rep.ob("pure", f"{name}.{meth}", not bad, f"{bad[:1]!r}", bad[0].where() if bad else where(ix, q, meth))
            return v, st
        v, st = get("get_pose")
        pose = ip.freeze(v, st)
        w = where(ix, q, "get_pose")
        xyt = [m.x(k) for k in ("x", "y", "psi")]
        M = se2mat(T("fn", "SE2", *xyt))
        for i in range(2):
            for j in range(3):
                rep.eq("pose", f"{name}-{i}{j}", N, ip.freeze(ip.getitem(v, T("tuple", const(i), const(j)), st), st), M.args[i].args[j], w)
        for meth, a, b, _ in m.later(("get_pose", ()), ("get_footprint", ()), ("get_mesh", ())):
            rep.ob("current", f"{name}.{meth}", up_to_date(b, a, m.state_t), f"after the state is replaced, {meth} still depends on the earlier one: {show(b, 0, 6)[:300]}", where(ix, q, meth))
        m2 = MX(ix, q, overrides={"scipy.integrate.solve_ivp": IVP()})
        for meth, a, b, _ in m2.later(("get_pose", ()), ("get_footprint", ()), ("get_mesh", ()), step=(command_var(m2, "update", 1), var("dt"))):
            rep.ob("current", f"{name}.{meth} after a step", up_to_date(b, a, m2.state_t), f"after a step, {meth} still depends on the state before: {show(b, 0, 6)[:300]}", where(ix, q, meth))
        # the body: the geometry's outline, or the shape a dynamic obstacle was made with
        st = m.st.fork()
        shape = ip.hget(st, m.ref, "shape") or m.params.get("shape")
        geo = ip.getattr(m.ref, "model_geometry", st)
        bodies = []
        if shape is not None:
            bodies.append(ip.freeze(shape, st))
        else:
            g = ip.clsof(geo)
            if g and ix.find_method(g, "outline_as_polygon"):
                bodies.append(ip.freeze(ip.getattr(geo, "outline_as_polygon", st), st))
            bodies.append(ip.freeze(ip.call(T("ext", "shapely.geometry.Polygon"), (ip.getattr(geo, "outline", st),), (), st, None), st))
        body = bodies[0]
        v, st = get("get_footprint")
        foot = ip.freeze(v, st)
        w = where(ix, q, "get_footprint")
        ok = foot.op == "fn" and foot.args[0] == "affine"
        want = [M.args[0].args[0], M.args[0].args[1], M.args[1].args[0], M.args[1].args[1], M.args[0].args[2], M.args[1].args[2]]
        if not ok and poly_points(foot):
            moved = T("fn", "affine", body, *want)
            rep.ob("footprint", f"{name}-corners", same_corners(N, foot, moved), f"corners are {show(foot)[:300]}", w)
            ok = None
        rep.ob("footprint", f"{name}-moved", ok is not False, f"footprint is {show(foot)[:300]}", w)
        if ok is False:
            continue
        if ok:
            rep.ob("footprint", f"{name}-outline", foot.args[1] in bodies or same_corners(N, foot.args[1], body), f"moves {show(foot.args[1])[:300]}, not the model's body", w)
            for k, a, b in zip(("xx", "xy", "yx", "yy", "x-offset", "y-offset"), foot.args[2:], want):
                rep.eq("footprint", f"{name}-{k}", N, a, b, w)
        # mesh
        v, st = get("get_mesh")
        mesh = ip.content(v, st)
        mesh = ip.freeze(mesh, st) if mesh is not None else ip.freeze(v, st)
        w = where(ix, q, "get_mesh")
        if mesh.op != "dict" or not mesh.args:
            rep.ob("mesh", name, False, f"mesh is {show(mesh)[:300]}", w)
            continue
        corners, outline = poly_points(foot), poly_points(body)
        if all(val is foot for _, val in mesh.args):
            rep.ob("mesh", f"{name}-whole", True, "", w)
            rep.ob("cover", name, True, "", w)
            rep.ob("sides", name, all(k.args[0] == "everywhere" for k, _ in mesh.args if isconst(k)), f"the whole body is {[show(k) for k, _ in mesh.args]}", w)
            continue
        if corners is None:
            ok = all(val.op == "fn" and val.args[0] == "affine" and val is foot for _, val in mesh.args)
            rep.ob("mesh", f"{name}-whole", ok, f"piece {show(mesh.args[0][1])[:300]} is not the footprint", w)
            continue
        n = len(corners)
        edges = {}
        for k, val in mesh.args:
            side = k.args[0] if isconst(k) else show(k)
            if val is foot:
                for i in range(n):
                    edges.setdefault(i, []).append(side)
                continue
            ps = poly_points(val)
            if ps is None:
                rep.ob("mesh", f"{name}-{side}", False, f"piece is {show(val)[:300]}", w)
                continue
            idx = []
            for p in ps:
                idx.append(ident(N, p, corners, foot))
            real = [i for i in idx if isinstance(i, int)]
            chain = sorted(set(real))
            closed = len(idx) >= 3 and "?" not in idx and "centroid" in idx
            run = edge_run(idx, n)
            rep.ob("mesh", f"{name}-{side}", closed and run is not None, f"piece with corners {idx} is not a triangle from the centroid over consecutive corners of the footprint", w)
            for i in run or ():
                edges.setdefault(i, []).append(side)
        rep.ob("cover", name, set(edges) == set(range(n)), f"edges {sorted(set(range(n)) - set(edges))} of the footprint belong to no piece", w)
        # sides
        g = T("var", "vg")
        pos = [T("cmp", "lt", ZERO, s) for s in sorted({s for p in outline for c in p.args for s in subterms(c) if s.op == "attr" and s.args[1] in ("lf", "lr", "w_half")}, key=show)]
        S = Norm(assume=pos)
        for i, ss in sorted(edges.items()):
            a, b = outline[i], outline[(i + 1) % n]
            for side in ss:
                if side == "everywhere":
                    continue
                c, sg = {"left": (1, 1), "right": (1, -1), "front": (0, 1), "back": (0, -1)}.get(side, (None, None))
                if c is None:
                    rep.ob("sides", f"{name}-{side}", False, f"unknown side {side}", w)
                    continue
                for e in (a, b):
                    for o in outline:
                        x, y = e.args[c], o.args[c]
                        rep.holds("sides", f"{name}-{side}-{i}", S, lnot(T("cmp", "lt", *((x, y) if sg > 0 else (y, x)))), w, what=f"{show(x)[:80]} is the most {side}")
        rep.funcs |= ip.visited
        rep.notes += ip.notes
    for q in qs:
        rep.funcs |= {q + ".get_pose", q + ".get_footprint", q + ".get_mesh"}


def root(t):
    while isinstance(t, T) and t.op in ("attr", "item"):
        t = t.args[0]
    return t


def ident(N, p, corners, foot):
    """which corner of the footprint (or its centroid) a point is"""
    for i, c in enumerate(corners):
        if p is c:
            return i
    cs = list(subterms(p))
    for s in cs:
        if s.op == "attr" and s.args[1] == "centroid" and s.args[0] is foot:
            x, y = p.args
            if x is not y and is_coord(x, s, 0) and is_coord(y, s, 1):
                return "centroid"
            return "?"
    for i, c in enumerate(corners):
        if all(N.diff(a, b) is None for a, b in zip(p.args, c.args)):
            return i
    return "?"


def is_coord(t, c, k):
    if t.op == "attr" and t.args[0] is c and t.args[1] == "xy"[k]:
        return True
    if t.op != "item" or t.args[0].op != "item" or t.args[0].args[0].op != "attr" or t.args[0].args[0].args[0] is not c:
        return False
    what, first, second = t.args[0].args[0].args[1], t.args[0].args[1], t.args[1]
    return what == "coords" and isconst(first, 0) and isconst(second, k) or what == "xy" and isconst(first, k) and isconst(second, 0)


def edge_run(idx, n):
    """edges of the footprint a piece [centroid, corners...] covers, or None when its corners are not consecutive"""
    idx = [i for k, i in enumerate(idx) if k == 0 or i != idx[k - 1]]
    if len(idx) > 1 and idx[0] == idx[-1]:
        idx = idx[:-1]
    if idx.count("centroid") != 1 or "?" in idx:
        return None
    k = idx.index("centroid")
    seq = idx[k + 1:] + idx[:k]
    if len(seq) < 2:
        return None
    out = []
    for a, b in zip(seq, seq[1:]):
        if (b - a) % n == 1:
            out.append(a)
        elif (a - b) % n == 1:
            out.append(b)
        else:
            return None
    return out


def same_corners(N, a, b):
    pa, pb = poly_points(a), poly_points(b)
    if pa is None or pb is None or len(pa) != len(pb):
        return N.diff(a, b) is None
    return all(N.diff(x, y) is None for p, r in zip(pa, pb) for x, y in zip(p.args, r.args))
