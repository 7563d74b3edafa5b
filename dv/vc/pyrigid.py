"""C19: deodr/laplacian_rigid_energy.py"""
import types
from .pyver import *
from .pymesh import V, F

PATH = "deodr/laplacian_rigid_energy.py"


def laplacian():
    """Contract of TriMeshAdjacencies.laplacian (C16): degree minus adjacency, its rows sum to zero."""
    a = lambda i, j: app("adj", i, j)
    return Sp((V, V), lambda i, j: delta(i, j) * nps.sum_dim(V, lambda k: a(i, k)) - a(i, j)), Sp((V, V), a)


def setup(p):
    m = p.get("lre")
    lap, adj = laplacian()
    n = var("components", "I")
    p.c.assume(cmp("<=", 1, n))
    p.calls = []

    def connected(csgraph=None, directed=True, return_labels=True, **k):
        p.calls.append((csgraph, directed, k))
        lab = symbol("labels", V, dtype="i")
        return (nps.scalar(n, "i"), lab) if return_labels else nps.scalar(n, "i")
    m.LaplacianRigidEnergy.__init__.__globals__["scipy"].sparse.csgraph.__dict__["connected_components"] = connected
    mesh = types.SimpleNamespace(nb_vertices=V, nb_faces=F, adjacencies=types.SimpleNamespace(laplacian=lap, adjacency_vertices=adj, nb_vertices=V))
    return m, mesh, lap, adj, n


def v_rigid(rep):
    p = Py(rep, "LaplacianRigidEnergy")

    def run(p):
        m, mesh, lap, adj, n = setup(p)
        ref, y, w = symbol("ref", V, 3), symbol("y", V, 3), var("cregu")
        ref0 = ref.copy()
        o = []
        e = p.raises(lambda: o.append(m.LaplacianRigidEnergy(mesh, ref, scalar(w))))
        p.true("the components of the vertex adjacency are counted", len(p.calls) > 0)   # the adjacency is symmetric (C16): directed or not
        if p.calls:
            p.eq("the components of the vertex adjacency are counted", p.calls[0][0], adj)
        p.true("a mesh with several components is refused", iff_(e is not None, cmp("<", 1, n)))
        if e is not None:
            p.true("refused with the documented exception", "more than one connected component" in str(e))
            return
        o = o[0]
        p.unchanged("arguments", reference=ref)
        ref.assign(symbol("later", V, 3))   # the caller reuses its array
        E, g, H = o.evaluate(y)
        d = lambda j, k: num(y.at(j, k)) - num(ref0.at(j, k))
        want = w / 2 * nps.sum_dim(V, lambda i: sum((nps.sum_dim(V, lambda j: lap.fn(i, j) * d(j, k)) ** 2 for k in range(3)), P.of(0)))
        p.eq("half the weight times the squared Laplacian of the displacement", asA(E), asA(want))
        p.adjoint("the gradient is the derivative of the energy", num(asA(E).item()), y, g)
        # the Hessian is the derivative of the gradient
        hd = H.dims
        i = indices(V)[0]
        j = indices(V)[0]
        p.true("shape of the Hessian", len(hd) == 2 and all(valid(cmp("==", nps.size(x), 3 * V.base.size)) for x in hd))
        for k in range(3):
            for l in range(3):
                a = list(num(y.at(j, l)).atoms())[0]
                p.zero("the Hessian is the derivative of the gradient", num(H.fn(("p", i, k), ("p", j, l))) - ddx(num(g.at(i, k)), wrt(a.name, a.args)))
        # again, on the same object
        E2, g2, _ = o.evaluate(y)
        p.eq("same energy when asked again", asA(E2), asA(want))
        p.eq("same gradient when asked again", g2, g)
        E0, g0, _ = o.evaluate(ref0)
        p.eq("no energy at the reference", asA(E0), asA(0))
        p.eq("no gradient at the reference", g0, nps.np_zeros((V, 3)))
        t = symbol("t", 3)
        Et, gt, _ = o.evaluate(ref0 + t)
        p.eq("no energy under translations", asA(Et), asA(0))
        p.eq("no gradient under translations", gt, nps.np_zeros((V, 3)))
        p.unchanged("arguments", vertices=y)
    p.run(run)
    p.use(PATH, "LaplacianRigidEnergy.__init__", "LaplacianRigidEnergy.evaluate")


def iff_(a, c):
    return c if a else bnot(c)
