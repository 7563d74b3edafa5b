"""C23: loop_subdivision of deodr/triangulated_mesh.py"""
import inspect
from .pyver import *
from .pymesh import V, F, PATH, ORIENTATION, faces_symbol, ident, ends, over_edges, row_of, edge_identifiers, Infeasible

C = B("C")


def v_subdivision(rep, cws=(False, True)):
    for cw in cws:
        for colors in (True, False):
            p = Py(rep, f"loop_subdivision, {'clockwise' if cw else 'counterclockwise'}, {'with' if colors else 'without'} colours")

            def run(p):
                m = p.get("mesh")
                g = m.loop_subdivision.__globals__
                real, real_loop = g["ColoredTriMesh"], g["loop_subdivision"]
                f, x = faces_symbol(), symbol("x", V, 3)
                col = symbol("col", V, C) if colors else None
                o = real(faces=f, vertices=x, clockwise=cw, colors=col, nb_colors=C)
                if not o.adjacencies.is_closed:
                    raise Infeasible   # closed manifold meshes only
                E = p.c.unique["E"]
                k = var("steps", "I")
                p.c.assume(cmp("<=", 0, k))
                built, calls = [], []

                class Built(real):
                    # contract of the constructor: the mesh of its arguments
                    def __init__(self, *a, **kw):
                        b = inspect.signature(real.__init__).bind(self, *a, **kw)
                        b.apply_defaults()
                        built.append(b.arguments)
                        self.args_ = b.arguments
                g["ColoredTriMesh"] = Built

                def again(mesh, n_iter=1):
                    # contract of the recursive call: n_iter steps, at least one here
                    calls.append((mesh, n_iter))
                    return o
                g["loop_subdivision"] = again
                other = object()
                start = nps.scalar(k, "i")
                c0 = p.c.branch(cmp("==", k, 0))
                c1 = not c0 and p.c.branch(cmp("==", k, 1))
                first = o if c0 or c1 else other
                r = real_loop(first, start)
                if c0:
                    p.true("no step: the mesh itself", r is o and not calls and not built)
                    return
                if c1:
                    p.true("one step: no other", not calls)
                else:
                    p.true("several steps: one fewer, then one", len(calls) == 1 and calls[0][0] is other)
                    if calls:
                        p.true("several steps: one fewer, then one", cmp("==", num(asA(calls[0][1]).item()), k - 1))
                p.true("one mesh is built", len(built) == 1 and isinstance(r, Built))
                b = built[0]
                p.true("same orientation option", b["clockwise"] is cw or bool(b["clockwise"]) == cw)
                p.true("no texture", b["uv"] is None and b["texture"] is None and b["faces_uv"] is None)
                deg = lambda v: nps.sum_dim(V, lambda u: nb(v, u))
                cnt = lambda t, v: sum((delta(num(f.at(t, i)), v) for i in range(3)), P.of(0))
                nb = lambda u, v: ind(cmp("<", 0, nps.sum_dim(F, lambda t: cnt(t, u) * cnt(t, v)))) - delta(u, v)
                X = lambda v, c: num(x.at(v, c))
                edge = lambda e, c: X(num(o.adjacencies.edges.at(e, 0)), c) + X(num(o.adjacencies.edges.at(e, 1)), c)
                opp = lambda i, t, c: X(num(f.at(t, (i + 2) % 3)), c)

                def vert(i):
                    part, y = i[0][1], i[0][2]
                    c = i[1]
                    if part == 0:
                        return X(y, c) * 5 / 8 + nps.sum_dim(V, lambda u: nb(y, u) * X(u, c)) / deg(y) * 3 / 8
                    ends_ = over_edges(lambda i, t: delta(ident(p, i, t), y) * (X(ends(f, i, t)[0], c) + X(ends(f, i, t)[1], c)))
                    opposite = over_edges(lambda i, t: delta(ident(p, i, t), y) * opp(i, t, c))
                    return (opposite + ends_ + edge(y, c)) / 8
                p.eq("vertices", b["vertices"], new((Cat([V, E]), 3), vert))
                # ends_ is twice the sum of the ends of an edge with two faces
                for i in range(3):
                    n, t = len(p.c.pc), indices(F)[0]
                    p.c.solver.push()
                    row_of(p, o.adjacencies, f, i, t, ident(p, i, t))
                    p.c.solver.pop()
                    del p.c.pc[n:]
                e = indices(E)[0]
                count = over_edges(lambda i, t: delta(ident(p, i, t), e))
                p.true("two faces for every edge", bor(cmp("==", count, 2), bnot(band(*[q.f((e,)) for q, val in p.c.facts if val and q.kind == "all" and len(q.dims) == 1 and isinstance(q.dims[0], B)]))))
                if colors:
                    K = lambda v, c: num(col.at(v, c))
                    p.eq("colours", b["colors"], new((Cat([V, E]), C), lambda i: K(i[0][2], i[1]) if i[0][1] == 0 else
                                                    (K(num(o.adjacencies.edges.at(i[0][2], 0)), i[1]) + K(num(o.adjacencies.edges.at(i[0][2], 1)), i[1])) / 2))
                else:
                    p.true("no colours", b["colors"] is None)
                p.true("number of colours", cmp("==", num(asA(b["nb_colors"]).item()), C.base.size))
                n = V.base.size
                mid = lambda t, i: n + ident(p, i % 3, t)

                def face(i):
                    q, t, c = i[0][1], i[0][2], i[1]
                    if q == 3:
                        return mid(t, c)
                    return [num(f.at(t, q)), mid(t, q), mid(t, q + 2)][c]
                p.eq("faces: four for each, same orientation", b["faces"], new((Cat([F] * 4), 3), face, "i"))
                p.unchanged("arguments", vertices=x, faces=f)
            p.run(run, refused=ORIENTATION)
    p.use(PATH, "loop_subdivision", "ColoredTriMesh.__init__", "TriMesh.__init__", "TriMeshAdjacencies.__init__")
    p = Py(rep, "ColoredTriMesh.subdivise")

    def sub(p):
        m = p.get("mesh")
        g = m.loop_subdivision.__globals__
        got = []
        g["loop_subdivision"] = lambda *a, **k: got.append((a, k)) or "result"
        o, k = object.__new__(m.ColoredTriMesh), var("steps", "I")
        p.true("the subdivision", m.ColoredTriMesh.subdivise(o, k) == "result" and len(got) == 1)
        a, kw = got[0]
        a = dict(zip(("mesh", "n_iter"), a), **kw)
        p.true("the subdivision", a["mesh"] is o and a["n_iter"] is k)
    p.run(sub)
    p.use(PATH, "ColoredTriMesh.subdivise")
    p = Py(rep, "loop_subdivision of a textured mesh")

    def tex(p):
        m = p.get("mesh")
        f, x = faces_symbol(), symbol("x", V, 3)
        o = m.ColoredTriMesh(faces=f, vertices=x, uv=symbol("uv", B("U"), 2), faces_uv=symbol("fuv", F, 3, dtype="i"), texture=symbol("tex", B("H"), B("W"), 3))
        e = p.raises(lambda: m.loop_subdivision(o, 1))
        p.true("refused", type(e) is BaseException and "Textured" in str(e))
    p.run(tex, refused=ORIENTATION)


def v_closed(rep):
    """The subdivision of a closed manifold mesh without two faces on the same vertices is one again.

    The faces of the result are those of v_subdivision: for face t and s = 0, 1, 2 the corner
    (f(t,s), n+e(t,s), n+e(t,s+2)), and (n+e(t,0), n+e(t,1), n+e(t,2)), where e(t,i) identifies the edge from
    f(t,i) to f(t,i+1).  The hypotheses are the contracts of the adjacency (C16): an edge has one
    identifier, belongs to exactly two positions (closed) and to one at most in each direction (manifold)."""
    import time
    import z3
    I, B_ = z3.IntSort(), z3.BoolSort()
    f, e = z3.Function("f", I, I, I), z3.Function("e", I, I, I)
    T, J = z3.Function("T", I, I, I), z3.Function("J", I, I, I)   # the other position of the edge
    n, NF = z3.Ints("n NF")
    nxt = lambda i: (i + 1) % 3 if isinstance(i, int) else z3.If(i == 2, 0, i + 1)
    And, Or, Not, Implies = z3.And, z3.Or, z3.Not, z3.Implies
    a = lambda k: f(k[0], k[1])
    b = lambda k: f(k[0], nxt(k[1]))

    def same_pair(u, v, x, y):
        return Or(And(u == x, v == y), And(u == y, v == x))

    def hyp(faces):
        pos = [(t, i) for t in faces for i in range(3)]
        h = []
        for t in faces:
            h += [0 <= t, t < NF]
            h += [And(0 <= f(t, i), f(t, i) < n, e(t, i) >= 0, f(t, i) != f(t, (i + 1) % 3)) for i in range(3)]
        for k in pos:
            o = (T(*k), J(*k))
            h += [0 <= o[0], o[0] < NF, 0 <= o[1], o[1] <= 2, Not(And(o[0] == k[0], o[1] == k[1])), same_pair(a(k), b(k), a(o), b(o)), e(*o) == e(*k)]
            h += [f(o[0], i) >= 0 for i in range(3)] + [f(o[0], i) < n for i in range(3)]
            for q in pos + [o]:
                pair = same_pair(a(k), b(k), a(q), b(q))
                here = And(q[0] == k[0], q[1] == k[1])
                h.append((e(*k) == e(*q)) == pair)
                h.append(Implies(pair, Or(here, And(q[0] == o[0], q[1] == o[1]))))           # two positions
                h.append(Implies(And(pair, (a(k) < b(k)) == (a(q) < b(q))), here))           # one in each direction
        for i, t in enumerate(faces):
            for u in faces[:i]:
                h.append(Implies(And(*[Or(*[f(t, x) == f(u, y) for y in range(3)]) for x in range(3)]), t == u))
        return h

    def corner(t, s, c):
        """Vertex c of sub-face s of face t."""
        if s == 3:
            return n + e(t, c)
        return [f(t, s), n + e(t, s), n + e(t, (s + 2) % 3)][c]

    def edge(p):
        t, s, k = p
        return corner(t, s, k), corner(t, s, (k + 1) % 3)

    def other(p):
        """The position of the same edge in another sub-face."""
        t, s, k = p
        if s == 3:
            return t, (k + 1) % 3, 1
        if k == 1:
            return t, 3, (s + 2) % 3
        return None   # in the neighbour: the first edge of its corner for the third one, and conversely

    def partner(p, name):
        """Contract of the partner: the other position, as (conditions, face, sub-face, edge)."""
        o = other(p)
        if o is not None:
            return [(z3.BoolVal(True), o)]
        t, s, k = p
        i = s if k == 0 else (s + 2) % 3
        o = (T(t, i), J(t, i))
        # k = 0: f(t,s) -> mid(t,s); there mid(T,J) -> f(T,J+1), the last edge of corner J+1
        return [(o[1] == j, (o[0], (j + 1) % 3, 2) if k == 0 else (o[0], j, 0)) for j in range(3)]
    t, u = z3.Ints("t u")
    P4 = [(s, k) for s in range(4) for k in range(3)]

    def prove(name, cases):
        t0, bad, vac = time.time(), None, True
        for faces, cond, goal in cases:
            s = z3.Solver()
            s.set("timeout", 30000)
            s.add(*hyp(faces))
            s.add(cond)
            vac = vac and s.check() == z3.unsat
            s.add(Not(goal))
            r = s.check()
            if r != z3.unsat:
                bad = f"{r}: {cond} -> {goal}"
                break
        rep.solver_time += time.time() - t0
        rep.add("closed manifold meshes stay so: " + name, bad is None, "z3", time.time() - t0, bad)
        rep.add("closed manifold meshes stay so (not vacuous): " + name, not vac, "z3")
    same = lambda p, q: And(p[0] == q[0], p[1] == q[1], p[2] == q[2])
    one, two, way, apart = [], [], [], []
    for s, k in P4:
        p = (t, s, k)
        x, y = edge(p)
        apart.append(([t], True, x != y))
        for c, q in partner(p, "o"):
            v, w = edge(q)
            one.append(([t], c, And(Not(And(q[0] == t, q[1] == s, q[2] == k)), v == y, w == x)))
        for s2, k2 in P4:
            q = (u, s2, k2)
            v, w = edge(q)
            isp = Or(*[And(c, same(q, o)) for c, o in partner(p, "o")])
            two.append(([t, u], same_pair(x, y, v, w), Or(same(p, q), isp)))
            way.append(([t, u], And(same_pair(x, y, v, w), (x < y) == (v < w)), same(p, q)))
    prove("edges have two ends", apart)
    prove("every edge has another position, in the other direction", one)
    prove("and no third one", two)
    prove("one position in each direction", way)
    dup, ref = [], []
    for s in range(4):
        for s2 in range(4):
            c = And(*[Or(*[corner(t, s, i) == corner(u, s2, j) for j in range(3)]) for i in range(3)])
            dup.append(([t, u], c, And(t == u, s == s2)))
    prove("no two faces on the same vertices", dup)
    rep.functions[PATH + ":loop_subdivision"] = "under contract"
