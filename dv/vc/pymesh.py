"""C14-C17, C23: deodr/triangulated_mesh.py"""
from .pyver import *
from . import sums

PATH = "deodr/triangulated_mesh.py"
V, F = B("V"), B("F")
ORIENTATION = "The volume within the surface is negative"


def faces_symbol(name="faces", n=None, F_=None):
    n = n or V
    f = symbol(name, F_ or F, 3, dtype="i")
    nps.AXIOMS[name] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), n.base.size))]
    return f


def distinct(p, f):
    """Precondition: the three corners of a face are distinct vertices."""
    r = f.reader()
    nps.AXIOMS[f.buf.name] = (lambda old: lambda at: old(at) + [bnot(cmp("==", num(r((at.args[0], a))), num(r((at.args[0], b))))) for a, b in ((0, 1), (1, 2), (0, 2))])(nps.AXIOMS[f.buf.name])


def adjacencies(p, clockwise=False, mod="mesh"):
    m = p.get(mod)
    f = faces_symbol()
    return m.TriMeshAdjacencies(f, clockwise, nb_vertices=V), f


def face_normal(f, x, clockwise, t):
    """Spec: unit normal of face t as three terms."""
    c = [[num(x.at(num(f.at(t, i)), k)) for k in range(3)] for i in range(3)]
    u = [c[1][k] - c[0][k] for k in range(3)]
    v = [c[2][k] - c[0][k] for k in range(3)]
    n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    if clockwise:
        n = [-a for a in n]
    l = sqrt(n[0] ** 2 + n[1] ** 2 + n[2] ** 2)
    return [a / l for a in n]


def face_normals(f, x, clockwise):
    return new((f.dims[0], 3), lambda i: face_normal(f, x, clockwise, i[0])[i[1]])


def vertex_normals(f, fn):
    s = new((V, 3), lambda i: sum((nps.sum_dim(F, lambda t: delta(num(f.at(t, c)), i[0]) * num(fn.at(t, i[1]))) for c in range(3)), P.of(0)))
    return s / nps.np_sqrt(nps.np_sum(s * s, axis=1))[:, None]


def v_normals(rep, cws=(False, True), lazies=(False, True), mod="mesh"):
    """mod: the module of the classes (mesh, or that of the PyTorch interface)."""
    suffix = "" if mod == "mesh" else "Pytorch"
    for cw in cws:
        tag = "clockwise" if cw else "counterclockwise"
        p = Py(rep, f"TriMeshAdjacencies{suffix}.compute_face_normals, {tag}")

        def face(p):
            ad, f = adjacencies(p, cw, mod)
            x = symbol("x", V, 3)
            n = ad.compute_face_normals(x)
            p.eq("normals", n, face_normals(f, x, cw))
            p.eq("unit length", nps.np_sum(n * n, axis=1), nps.np_ones(F))
            for i in (1, 2):
                e = x[f[:, i]] - x[f[:, 0]]
                p.eq("orthogonal to the face", nps.np_sum(n * e, axis=1), nps.np_zeros(F))
            p.unchanged("arguments", vertices=x, faces=f)
        p.run(face)

        p = Py(rep, f"TriMeshAdjacencies{suffix}.compute_vertex_normals, {tag}")

        def vert(p):
            ad, f = adjacencies(p, cw, mod)
            fn = symbol("fn", F, 3)
            n = ad.compute_vertex_normals(fn)
            p.eq("normals", n, vertex_normals(f, fn))
            p.unchanged("arguments", face_normals=fn, faces=f)
        p.run(vert)

        for lazy in lazies:
            p = Py(rep, f"TriMesh{suffix} normals follow the vertices, {tag}{', lazy adjacency' if lazy else ''}")

            def state(p):
                m = p.get(mod)
                f, x, y = faces_symbol(), symbol("x", V, 3), symbol("y", V, 3)
                o = m.TriMesh(f, x, clockwise=cw, **(dict(colors=symbol("col", V, 3)) if suffix else dict(compute_adjacencies=not lazy)))
                p.eq("first normals", o.face_normals, face_normals(f, x, cw))
                p.eq("first vertex normals", o.vertex_normals, vertex_normals(f, face_normals(f, x, cw)))
                p.eq("same when asked again", o.face_normals, face_normals(f, x, cw))
                o.set_vertices(y)
                p.eq("after a change of the vertices", o.face_normals, face_normals(f, y, cw))
                p.eq("vertex normals after a change of the vertices", o.vertex_normals, vertex_normals(f, face_normals(f, y, cw)))
                y.assign(symbol("z", V, 3))
                z = y.copy()
                o.set_vertices(y)
                p.eq("vertex normals after the same array was modified and set again", o.vertex_normals, vertex_normals(f, face_normals(f, z, cw)))
                p.eq("face normals after the same array was modified and set again", o.face_normals, face_normals(f, z, cw))
                o.set_vertices(x)
                o.compute_vertex_normals()
                p.eq("recomputed vertex normals", o._vertex_normals, vertex_normals(f, face_normals(f, x, cw)))
                p.true("vertices", o.vertices is x)
                p.unchanged("arguments", vertices=x, faces=f)
            p.run(state, refused=ORIENTATION)
    p.use(PATH, "TriMeshAdjacencies.__init__", "TriMeshAdjacencies.compute_face_normals", "TriMeshAdjacencies.compute_vertex_normals", "TriMesh.__init__", "TriMesh.set_vertices",
          "TriMesh.face_normals", "TriMesh.vertex_normals", "TriMesh.compute_face_normals", "TriMesh.compute_vertex_normals", "TriMesh.adjacencies", "TriMesh.compute_adjacencies")
    p.use("deodr/tools.py", "normalize")


def v_normals_backward(rep, cws=(False, True)):
    for cw in cws:
        tag = "clockwise" if cw else "counterclockwise"
        p = Py(rep, f"TriMeshAdjacencies.compute_face_normals_backward, {tag}")

        def face(p):
            ad, f = adjacencies(p, cw)
            x, w = symbol("x", V, 3), symbol("w", F, 3)
            n = ad.compute_face_normals(x)
            L = p.dot(w, n)
            p.adjoint("gradient of the vertices", L, x, ad.compute_face_normals_backward(w))
            p.unchanged("arguments", vertices=x, faces=f, gradient=w)
        p.run(face)

        p = Py(rep, f"TriMeshAdjacencies.compute_vertex_normals_backward, {tag}")

        def vert(p):
            ad, f = adjacencies(p, cw)
            fn, w = symbol("fn", F, 3), symbol("w", V, 3)
            n = ad.compute_vertex_normals(fn)
            L = p.dot(w, n)
            p.adjoint("gradient of the face normals", L, fn, ad.compute_vertex_normals_backward(w))
            p.unchanged("arguments", face_normals=fn, gradient=w)
        p.run(vert)

        p = Py(rep, f"TriMesh.compute_vertex_normals_backward, {tag}")

        def whole(p):
            m = p.get("mesh")
            f, x, w = faces_symbol(), symbol("x", V, 3), symbol("w", V, 3)
            o = m.TriMesh(f, x, clockwise=cw)
            before = symbol("vb", V, 3)
            o.compute_vertex_normals()
            o._vertices_b = before.copy()
            o.compute_vertex_normals_backward(w)
            # spec: composition of the two adjoints above, added to what was there
            ad = o.adjacencies
            want = ad.compute_face_normals_backward(ad.compute_vertex_normals_backward(w))
            p.eq("sum of the previous gradient and the chained adjoint", o._vertices_b, before + want)
            p.unchanged("arguments", vertices=x, faces=f, gradient=w)
            # the same mesh after a change of the vertices
            y = symbol("y", V, 3)
            o.set_vertices(y)
            p.eq("gradient cleared with new vertices", o._vertices_b, nps.np_zeros((V, 3)))
            o.compute_vertex_normals()
            o.compute_vertex_normals_backward(w)
            ad.compute_vertex_normals(ad.compute_face_normals(y))
            want = ad.compute_face_normals_backward(ad.compute_vertex_normals_backward(w))
            p.eq("chained adjoint at the new vertices", o._vertices_b, want)
        p.run(whole, refused=ORIENTATION)
    p.use(PATH, "TriMeshAdjacencies.compute_face_normals_backward", "TriMeshAdjacencies.compute_vertex_normals_backward", "TriMesh.compute_vertex_normals_backward", "TriMesh.set_vertices")
    p.use("deodr/tools.py", "normalize", "normalize_backward", "cross_backward")


# ------------------------------------------------------------------ C16, C17

def unique_law(p, a, b):
    """Assumed contract of numpy.unique at two positions: same identifier exactly when the keys are equal."""
    u = p.c.unique
    r, k = u["inv"].reader(), u["keys"]
    same, keys = cmp("==", num(r((a,))), num(r((b,)))), cmp("==", decided(p, num(k((a,)))), decided(p, num(k((b,)))))
    p.c.assume(band(bor(bnot(same), keys), bor(same, bnot(keys))))
    return same


def decided(p, t):
    """The term with the indicators that the path condition decides replaced by their values."""
    def d(a):
        if a.kind != "ind":
            return None
        c = sums.cond_of(a)
        return P.of(1) if p.c.valid(c) else P.of(0) if p.c.valid(bnot(c)) else None
    return t.subst(d)


def corner(i, t):
    """Position of the directed edge leaving corner i of face t in the list of the three edges of every face."""
    return ("c", i, t)


def ends(f, i, t):
    return num(f.at(t, i)), num(f.at(t, (i + 1) % 3))


def same_edge(a, b):
    return bor(band(cmp("==", a[0], b[0]), cmp("==", a[1], b[1])), band(cmp("==", a[0], b[1]), cmp("==", a[1], b[0])))


def iff(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


def ident(p, i, t):
    return num(p.c.unique["inv"].reader()((corner(i, t),)))


def edge_identifiers(p, f):
    """Two directed edges of faces get the same identifier exactly when they join the same two vertices."""
    if tuple(map(str, [p.c.unique["dim"]])) != (str(Cat([F, F, F])),):
        p.rep.fail(p.name + ": one identifier for each edge of each face", f"identifiers of {p.c.unique['dim']}")
        return
    for i in range(3):
        for j in range(3):
            n, s, t = len(p.c.pc), indices(F)[0], indices(F)[0]
            p.c.solver.push()
            a, b = ends(f, i, s), ends(f, j, t)
            for x in nps.axioms_for([cmp("==", y, 0) for y in a + b]):
                p.c.assume(x)
            ordered(p, a, b, lambda: p.true("an undirected edge has one identifier", iff(unique_law(p, corner(i, s), corner(j, t)), same_edge(a, b))))
            p.c.solver.pop()
            del p.c.pc[n:]


def ordered(p, a, b, then):
    """Case distinction on the order of the ends of two edges, with what the solver needs of products."""
    for ox, x in (("<", 0), ("<", 1), ("==", 0)):
        for oy, y in (("<", 0), ("<", 1), ("==", 0)):
            n = len(p.c.pc)
            p.c.solver.push()
            try:
                p.c.assume(cmp(ox, a[x], a[1 - x]))
                p.c.assume(cmp(oy, b[y], b[1 - y]))
                for u, v in ((a[x], b[y]), (b[y], a[x])):
                    p.c.assume(bor(cmp("<=", u, v), cmp("<=", 0, (u - v - 1) * V.base.size)))
                then()
            except Infeasible:
                pass
            p.c.solver.pop()
            del p.c.pc[n:]


def over_edges(fn):
    """Sum over the directed edges of all the faces."""
    return sum((nps.sum_dim(F, lambda t: fn(i, t)) for i in range(3)), P.of(0))


def known_all(p, v):
    """[(condition at a generic edge, known to hold for all edges?)] from the quantifiers decided on this path."""
    out = []
    for q, val in p.c.facts:
        if len(q.dims) == 1 and isinstance(q.dims[0], B):
            b = q.f((v,))
            out.append((b, val) if q.kind == "all" else (bnot(b), not val))
    return out


def for_all(p, name, value, c, v):
    """value (decided on this path) is: for all edges v, c."""
    facts = known_all(p, v)
    if value:
        p.true(name, bor(c, bnot(band(*[b for b, val in facts if val]))))
    else:
        ok = any(not val and valid(bor(b, bnot(c))) for b, val in facts)
        p.true(name, ok, "false although nothing on this path contradicts it: " + str(facts)[:900])


def v_topology(rep, cws=(False, True)):
    for cw in cws:
        p = Py(rep, f"TriMeshAdjacencies.__init__, {'clockwise' if cw else 'counterclockwise'}")

        def topo(p):
            ad, f = adjacencies(p, cw)
            E = p.c.unique["E"]
            edge_identifiers(p, f)
            p.true("number of edges", cmp("==", num(asA(ad.nb_edges).item()), E.base.size))
            p.true("number of faces", cmp("==", num(asA(ad.nb_faces).item()), F.base.size))
            # the row of an edge holds its two vertices
            for i in range(3):
                n, t = len(p.c.pc), indices(F)[0]
                p.c.solver.push()
                e = ident(p, i, t)
                row_of(p, ad, f, i, t, e)
                p.c.solver.pop()
                del p.c.pc[n:]
            count = lambda e: over_edges(lambda i, t: delta(ident(p, i, t), e))
            up = lambda e: over_edges(lambda i, t: delta(ident(p, i, t), e) * ind(cmp("<", *ends(f, i, t))))
            down = lambda e: over_edges(lambda i, t: delta(ident(p, i, t), e) * (1 - ind(cmp("<", *ends(f, i, t)))))
            p.eq("faces of the edges", ad.edges_faces_ones, new((E, F), lambda x: sum((delta(ident(p, i, x[1]), x[0]) for i in range(3)), P.of(0))))
            p.eq("vertices of the edges", ad.edges_vertices_ones,
                 new((E, V), lambda x: over_edges(lambda i, t: delta(ident(p, i, t), x[0]) * sum((delta(v, x[1]) for v in ends(f, i, t)), P.of(0)))))
            p.eq("edges of the faces", asA(ad.faces_edges), new((F, 3), lambda x: ident(p, x[1], x[0])))
            p.eq("faces of the vertices", ad._vertices_faces, new((V, F), lambda x: sum((delta(num(f.at(x[1], i)), x[0]) for i in range(3)), P.of(0))))
            p.eq("number of faces of a vertex", ad.degree_v_f, new((V,), lambda x: nps.sum_dim(F, lambda t: sum((delta(num(f.at(t, i)), x[0]) for i in range(3)), P.of(0)))))
            m = lambda t, v: sum((delta(num(f.at(t, i)), v) for i in range(3)), P.of(0))
            both = lambda a, b: ind(cmp("<", 0, nps.sum_dim(F, lambda t: m(t, a) * m(t, b))))
            p.eq("neighbours", ad.adjacency_vertices, new((V, V), lambda x: both(x[0], x[1]) - delta(x[0], x[1])))
            # every vertex is used: both(v, v) = 1
            lap = lambda a, b: delta(a, b) * (nps.sum_dim(V, lambda c: both(a, c)) - 1) - (both(a, b) - delta(a, b))
            p.eq("graph Laplacian", ad.laplacian, new((V, V), lambda x: lap(x[0], x[1])))
            p.eq("rows of the Laplacian sum to zero", new((V,), lambda x: nps.sum_dim(V, lambda c: num(asA(ad.laplacian.todense()).at(x[0], c)))), nps.np_zeros(V))
            e = indices(E)[0]
            manifold = band(cmp("<=", count(e), 2), cmp("<=", up(e), 1), cmp("<=", down(e), 1))
            for_all(p, "manifold: two faces at most for an edge, in opposite directions", bool(ad.is_manifold), manifold, e)
            for_all(p, "closed: manifold with two faces for every edge", bool(ad.is_closed), band(manifold, cmp("==", count(e), 2)), e)
            p.true("boundaries: some edge has one face", ad.hasBoundaries.kind == "any" and len(ad.hasBoundaries.dims) <= 2)
            hb = ad.hasBoundaries
            p.true("boundaries: some edge has one face", iff(hb.f((e,) + (0,) * (len(hb.dims) - 1)), cmp("==", count(e), 1)))
            p.unchanged("arguments", faces=f)
        p.run(topo)

        p = Py(rep, f"TriMeshAdjacencies.boundary_edges, {'clockwise' if cw else 'counterclockwise'}")

        def bnd(p):
            ad, f = adjacencies(p, cw)
            b = ad.boundary_edges()
            E = p.c.unique["E"]
            ok = isinstance(b, nps.Filter) and b.axis == 0
            p.true("rows of the edges selected by a mask", ok)
            if ok:
                p.eq("rows of the edges selected by a mask", b.a, ad.edges)
                p.eq("the selected edges have one face", b.m, new((E,), lambda x: cmp("==", over_edges(lambda i, t: delta(ident(p, i, t), x[0])), 1), "b"))
        p.run(bnd)

        p = Py(rep, f"TriMesh volume and orientation, {'clockwise' if cw else 'counterclockwise'}")

        def vol(p):
            m = p.get("mesh")
            f, x = faces_symbol(), symbol("x", V, 3)
            c = lambda t: [[num(x.at(num(f.at(t, i)), k)) for k in range(3)] for i in range(3)]

            def det(t):
                a, b, d = c(t)
                return sum((a[i] * (b[(i + 1) % 3] * d[(i + 2) % 3] - b[(i + 2) % 3] * d[(i + 1) % 3]) for i in range(3)), P.of(0))
            want = nps.sum_dim(F, det) / 6 * (-1 if cw else 1)
            o = []
            e = p.raises(lambda: o.append(m.TriMesh(f, x, clockwise=cw)))
            if e is not None:
                p.true("refused only when the enclosed volume is negative", type(e) is BaseException and ORIENTATION in str(e) and p.c.facts[-1][1] is True)
                p.true("refused only when the enclosed volume is negative", cmp("<", want, 0))
                return
            o = o[0]
            if o.adjacencies.is_closed:
                p.eq("volume", asA(o.compute_volume()), asA(want))
                p.true("closed meshes inside out are rejected", cmp("<=", 0, want))
            else:
                e = p.raises(o.compute_volume)
                p.true("no volume for an open mesh", type(e) is BaseException and "closed manifold" in str(e))
            p.unchanged("arguments", vertices=x, faces=f)
        p.run(vol)
    p.use(PATH, "TriMeshAdjacencies.__init__", "TriMeshAdjacencies.id_edge", "TriMeshAdjacencies.boundary_edges", "TriMesh.__init__", "TriMesh.compute_volume", "TriMesh.check_orientation", "TriMesh.compute_adjacencies")


def row_of(p, ad, f, i, t, e):
    """The row of the identifier of an edge holds its two vertices."""
    name = "row of an edge: its two vertices"
    a = ends(f, i, t)
    g = [num(ad.edges.at(e, k)) for k in (0, 1)]
    ws = {x for y in g for x in y.all_atoms() if x.name.startswith("last:")}
    parts = [x for x in ws if x.name.endswith(":part")]
    ws = [x for x in ws if not x.name.endswith(":part")]
    if len(parts) != 1 or len(ws) != 1:
        p.rep.fail(p.name + ": " + name, "rows are not written through the identifiers")
        return
    for x in nps.axioms_for([cmp("==", y, 0) for y in g]):
        p.c.assume(x)
    for j in range(3):
        n = len(p.c.pc)
        p.c.solver.push()
        w = P.atom(ws[0])
        p.c.assume(cmp("==", P.atom(parts[0]), j))
        p.c.assume(band(cmp("<=", 0, w), cmp("<", w, F.base.size)))
        p.c.assume(cmp("==", ident(p, j, w), e))
        b = ends(f, j, w)
        for x in nps.axioms_for([cmp("==", y, 0) for y in a + b]):
            p.c.assume(x)
        h = [y.subst(lambda x: P.of(j) if x is parts[0] else None) for y in g]
        ordered(p, a, b, lambda: (unique_law(p, corner(i, t), corner(j, w)), p.true(name, same_edge(h, a))))
        p.c.solver.pop()
        del p.c.pc[n:]


def v_silhouette(rep, cws=(False, True)):
    for cw in cws:
        for lazy in (False, True):
            p = Py(rep, f"TriMesh.edge_on_silhouette, {'clockwise' if cw else 'counterclockwise'}{', lazy adjacency' if lazy else ''}")

            def sil(p):
                m = p.get("mesh")
                f, x, q = faces_symbol(), symbol("x", V, 3), symbol("q", V, 2)
                o = m.TriMesh(f, x, clockwise=cw, compute_adjacencies=not lazy)
                out = []
                e = p.raises(lambda: out.append(o.edge_on_silhouette(q)))
                if e is not None and type(e) is BaseException and ORIENTATION in str(e):
                    raise Infeasible   # closed and inside out: refused as C16 says
                E = p.c.unique["E"]
                if not lazy:
                    edge_identifiers(p, f)
                count = lambda e: over_edges(lambda i, t: delta(ident(p, i, t), e))
                up = lambda e: over_edges(lambda i, t: delta(ident(p, i, t), e) * ind(cmp("<", *ends(f, i, t))))
                down = lambda e: over_edges(lambda i, t: delta(ident(p, i, t), e) * (1 - ind(cmp("<", *ends(f, i, t)))))
                g = indices(E)[0]
                for_all(p, "refused exactly when the mesh is not manifold", e is None, band(cmp("<=", count(g), 2), cmp("<=", up(g), 1), cmp("<=", down(g), 1)), g)
                if e is not None:
                    p.true("refused by an assertion", isinstance(e, AssertionError) or type(e) in (BaseException, ValueError))
                    return

                def facing(t):
                    c = [[num(q.at(num(f.at(t, i)), k)) for k in range(2)] for i in range(3)]
                    a = (c[1][0] - c[0][0]) * (c[2][1] - c[0][1]) - (c[1][1] - c[0][1]) * (c[2][0] - c[0][0])
                    return ind(cmp("<", 0, a) if cw else cmp("<", a, 0))

                def flag(x):
                    me = ident(p, x[1], x[0])
                    return cmp("==", over_edges(lambda i, t: delta(ident(p, i, t), me) * facing(t)), 1)
                p.eq("one visible face among those that share the edge", out[0], new((F, 3), flag, "b"))
                p.unchanged("arguments", vertices=x, faces=f, points=q)
            p.run(sil, refused=ORIENTATION)
    p.use(PATH, "TriMesh.edge_on_silhouette", "TriMeshAdjacencies.edge_on_silhouette", "TriMeshAdjacencies.__init__", "TriMeshAdjacencies.id_edge", "TriMesh.adjacencies")
