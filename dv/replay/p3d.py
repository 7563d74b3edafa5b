"""Python layers: C12 to C24."""
import contextlib
import io
import os
import numpy as np
from . import meshes as M
from ..oracle import raster
from ..oracle.raster import S
from .core import test, diff, first, numgrad, csgrad


def refuses(f, what):
    try:
        f()
    except BaseException:
        return None
    return what + " accepted"


# ------------------------------------------------------------------ cameras
def camera(rng, H=7, W=9, dist=None, skew=True, look=None):
    R = M.rotation(rng)
    d = rng.rand() < .6 if dist is None else dist
    c = rng.randn(3)
    if look is not None:  # put the cloud in front of the camera
        p = look.dot(R.T)
        t = -p.mean(axis=0) + [0, 0, 2.5 * (1 + np.ptp(p[:, 2]) + np.ptp(p, axis=0).max())]
    else:
        t = -R.dot(c)
    f = W * rng.uniform(.7, 1.5)
    K = np.array([[f, rng.randn() if skew else 0., W / 2 + (rng.randn() if skew else 0)], [0, f * rng.uniform(.8, 1.2), H / 2], [0, 0, 1.]])
    return dict(ext=np.column_stack([R, t]), intr=K, dist=rng.randn(5) * .05 if d else None, H=H, W=W)


def real_camera(c, cls=None):
    from deodr.differentiable_renderer import Camera
    return (cls or Camera)(c["ext"].copy(), c["intr"].copy(), c["H"], c["W"], None if c["dist"] is None else c["dist"].copy())


@test("C12", "projection", 300)
class _:
    def gen(rng, i):
        p = rng.randn(int(rng.choice([1, 2, 6])), 3)
        return dict(cam=camera(rng, look=p if i % 2 else None), p=p)

    def run(c):
        cam = real_camera(c["cam"])
        p = c["p"].copy()
        if np.abs(cam.world_to_camera(p)[:, 2]).min() < 1e-3:
            return None
        a, z = cam.project_points(p)
        b = cam.project_points(p, return_depths=False)
        st = {}
        a2, z2 = cam.project_points(p, store_backward=st)
        e, ze = M.project(c["cam"], c["p"])
        return first(diff("projection", a, e), diff("depth", z, ze), diff("projection without depths", b, e), diff("projection with storage", a2, e),
                     diff("depth with storage", z2, ze), diff("points", p, c["p"], 0))


@test("C12", "centre, inverse transform and frames", 200)
class _:
    def gen(rng, i):
        return dict(cam=camera(rng), p=rng.randn(5, 3))

    def run(c):
        cam = real_camera(c["cam"])
        ctr = cam.get_center()
        m = cam.camera_to_world_mtx_4x4()
        q = cam.world_to_camera(c["p"])
        back = np.column_stack([q, np.ones(5)]).dot(m.T)
        return first(diff("camera centre in the camera frame", cam.world_to_camera(ctr[None])[0], np.zeros(3)),
                     diff("inverse transform", back, np.column_stack([c["p"], np.ones(5)])),
                     diff("world to camera", q, c["p"].dot(c["cam"]["ext"][:, :3].T) + c["cam"]["ext"][:, 3]))


@test("C12", "perspective camera", 200)
class _:
    def gen(rng, i):
        return dict(R=M.rotation(rng), c=rng.randn(3), fov=float(rng.uniform(5, 150)), W=int(rng.randint(1, 900)), H=int(rng.randint(1, 900)), rot=bool(i % 4),
                    dist=rng.randn(5) * .1 if i % 3 else None)

    def run(c):
        from deodr.differentiable_renderer import PerspectiveCamera
        cam = PerspectiveCamera(c["W"], c["H"], c["fov"], c["c"].copy(), rot=c["R"].copy() if c["rot"] else None, distortion=c["dist"])
        R = c["R"] if c["rot"] else np.eye(3)
        f = c["W"] / 2 / np.tan(np.radians(c["fov"]) / 2)
        return first(diff("centre", cam.get_center(), c["c"]), diff("rotation", cam.extrinsic[:, :3], R), diff("xfov", cam.xfov, c["fov"]),
                     diff("yfov", cam.yfov, np.degrees(2 * np.arctan(c["H"] / 2 / f))),
                     diff("intrinsic", cam.intrinsic, np.array([[f, 0, c["W"] / 2], [0, f, c["H"] / 2], [0, 0, 1]])),
                     None if (cam.height, cam.width) == (c["H"], c["W"]) else "image size",
                     None if (cam.distortion is None) == (c["dist"] is None) else "distortion",
                     None if c["dist"] is None else diff("distortion", cam.distortion, c["dist"]))


@test("C12", "invalid cameras are refused", 40)
class _:
    def gen(rng, i):
        return dict(cam=camera(rng, dist=False), k=i % 5)

    def run(c):
        from deodr.differentiable_renderer import Camera
        e, K, d = c["cam"]["ext"].copy(), c["cam"]["intr"].copy(), None
        if c["k"] == 0:
            e[:, :3] *= 1.5
        elif c["k"] == 1:
            K[2, 1] = 1
        elif c["k"] == 2:
            d = np.zeros(4)
        elif c["k"] == 3:
            e = np.vstack([e, [0, 0, 0, 1]])
        else:
            K = K[:2]
        return refuses(lambda: Camera(e, K, 4, 5, d), "inconsistent camera")


@test("C12", "default camera sees the whole mesh", 150)
class _:
    def gen(rng, i):
        return dict(v=rng.randn(int(rng.randint(3, 20)), 3) * rng.uniform(.2, 3, 3) + rng.randn(3) * 3, R=M.rotation(rng), fov=float(rng.uniform(10, 120)),
                    W=int(rng.randint(10, 400)), H=int(rng.randint(10, 400)))

    def run(c):
        from deodr.differentiable_renderer import default_camera
        cam = default_camera(c["W"], c["H"], c["fov"], c["v"].copy(), c["R"].copy())
        p, z = cam.project_points(c["v"])
        e = 1e-6 * (1 + c["W"] + c["H"])
        if not (z > 0).all():
            return f"vertex behind the default camera (depth {z.min()})"
        if p.min() < -e or p[:, 0].max() > c["W"] + e or p[:, 1].max() > c["H"] + e:
            return f"vertex outside the image of the default camera: {p.min(axis=0)} {p.max(axis=0)}"
        return first(diff("rotation", cam.extrinsic[:, :3], c["R"]), diff("field of view", cam.xfov, c["fov"]))


@test("C13", "adjoint of the projection", 300)
class _:
    def gen(rng, i):
        p = rng.randn(int(rng.choice([1, 2, 5])), 3)
        return dict(cam=camera(rng, look=p), p=p, b=rng.randn(len(p), 2), zb=rng.randn(len(p)) if i % 2 else None)

    def run(c):
        cam = real_camera(c["cam"])
        st = {}
        cam.project_points(c["p"].copy(), store_backward=st)
        b, zb = c["b"].copy(), None if c["zb"] is None else c["zb"].copy()
        g = cam.project_points_backward(b, st, zb) if zb is None else cam.project_points_backward(b, st, depths_b=zb)
        g2 = cam.project_points_backward(b, st, depths_b=zb)

        def f(p):
            a, z = M.project(c["cam"], p)
            return (a * c["b"]).sum() + (0 if zb is None else (z * c["zb"]).sum())
        e = csgrad(f, c["p"])
        return first(diff("gradient", g, e), diff("second call", g2, e), diff("given gradient", b, c["b"], 0))


# ------------------------------------------------------------------ meshes
def trimesh(c, cls=None, **kw):
    from deodr.triangulated_mesh import TriMesh
    return (cls or TriMesh)(c["f"].copy(), vertices=c["v"].copy(), clockwise=c["cw"], **kw)


def mesh_case(rng, i, **kw):
    f, v, cw = M.mesh(rng, **kw)
    return dict(f=f, v=v, cw=cw)


@test("C14", "normals", 200)
class _:
    def gen(rng, i):
        c = mesh_case(rng, i)
        c["v2"] = c["v"] + .05 * rng.randn(*c["v"].shape)
        c["lazy"] = bool(i % 2)
        return c

    def run(c):
        m = trimesh(c, compute_adjacencies=not c["lazy"])
        a = diff("face normals", m.face_normals, M.face_normals(c["f"], c["v"], c["cw"])), diff("vertex normals", m.vertex_normals, M.vertex_normals(c["f"], c["v"], c["cw"]))
        m.set_vertices(c["v2"].copy())
        b = (diff("vertex normals after a change", m.vertex_normals, M.vertex_normals(c["f"], c["v2"], c["cw"])),
             diff("face normals after a change", m.face_normals, M.face_normals(c["f"], c["v2"], c["cw"])))
        m.set_vertices(c["v"].copy())
        m.compute_vertex_normals()
        d = diff("recomputed vertex normals", m.vertex_normals, M.vertex_normals(c["f"], c["v"], c["cw"]))
        n = m.face_normals
        x = c["v2"].copy()
        m.set_vertices(x)
        m.compute_vertex_normals()
        x[:] = c["v"]
        m.set_vertices(x)
        g = (diff("vertex normals after the same array was modified and set again", m.vertex_normals, M.vertex_normals(c["f"], c["v"], c["cw"])),
             diff("face normals after the same array was modified and set again", m.face_normals, M.face_normals(c["f"], c["v"], c["cw"])))
        return first(*a, *b, d, *g, diff("norm", (n * n).sum(axis=1), np.ones(len(n))))


@test("C15", "adjoint of the vertex normals", 150)
class _:
    def gen(rng, i):
        c = mesh_case(rng, i)
        c.update(b=rng.randn(*c["v"].shape), b0=rng.randn(*c["v"].shape) if i % 3 else None)
        return c

    def run(c):
        m = trimesh(c)
        m.compute_vertex_normals()
        if c["b0"] is not None:
            m._vertices_b = c["b0"].copy()
        m.compute_vertex_normals_backward(c["b"].copy())
        e = csgrad(lambda v: (M.vertex_normals(c["f"], v, c["cw"]) * c["b"]).sum(), c["v"])
        return diff("gradient", m._vertices_b, e + (0 if c["b0"] is None else c["b0"]), 1e-6)


@test("C16", "topology", 250)
class _:
    def gen(rng, i):
        c = mesh_case(rng, i)
        c["lazy"] = bool(i % 2)
        k = i % 4
        f = c["f"]
        if k == 1 and len(f) > 1:  # open it or break the orientation
            f = f[:-1]
        elif k == 2 and len(f) > 1:
            f[0] = f[0][::-1]
        elif k == 3:
            f = np.vstack([f, [f[0][0], f[0][1], len(c["v"])]])
            c["v"] = np.vstack([c["v"], [[3., 3., 3.]]])
        used = np.unique(f)
        c["f"] = np.searchsorted(used, f)
        c["v"] = c["v"][used]
        return c

    def run(c):
        from deodr.triangulated_mesh import TriMeshAdjacencies
        f, nv, nf = c["f"], len(c["v"]), len(c["f"])
        a = TriMeshAdjacencies(f.copy(), c["cw"], nb_vertices=nv if c["lazy"] else None)
        d = M.edges_of(f)
        E = {tuple(sorted(map(int, e))) for e in a.edges}
        if len(a.edges) != len(d) or a.nb_edges != len(d) or E != set(d):
            return f"edges {sorted(E)} expected {sorted(d)}"
        man = all(len(v) <= 2 and len({p for _, p in v}) == len(v) for v in d.values())
        closed = man and all(len(v) == 2 for v in d.values())
        ef = np.zeros((len(d), nf))
        ev = np.zeros((len(d), nv))
        fe = np.zeros((nf, 3, 2), int)
        idx = {}
        for k, e in enumerate(a.edges):
            key = tuple(sorted(map(int, e)))
            idx[key] = k
            for g, _ in d[key]:
                ef[k, g] += 1
        rfe = np.asarray(a.faces_edges)
        for k, t in enumerate(f):
            for i in range(3):
                fe[k, i] = sorted((int(t[i]), int(t[(i + 1) % 3])))
                if tuple(sorted(map(int, a.edges[rfe[k, i]]))) != tuple(fe[k, i]):
                    return f"edge {i} of face {k} is not {tuple(fe[k, i])}"
        adj = np.zeros((nv, nv))
        for p, q in d:
            adj[p, q] = adj[q, p] = 1
        evr = np.asarray(a.edges_vertices_ones.todense())
        vf = np.zeros((nv, nf))
        for k, t in enumerate(f):
            for i in t:
                vf[i, k] += 1
        be = {tuple(sorted(map(int, e))) for e in a.boundary_edges()}
        return first(diff("is_manifold", bool(a.is_manifold), man), diff("is_closed", bool(a.is_closed), closed), diff("edges_faces_ones", a.edges_faces_ones.todense(), ef),
                     diff("edges_vertices_ones (support)", evr != 0, np.array([[v in map(int, e) for v in range(nv)] for e in a.edges])),
                     diff("vertices of an edge over its faces", evr.sum(axis=1), 2 * ef.sum(axis=1)),
                     diff("adjacency_vertices", np.asarray(a.adjacency_vertices.todense()), adj), diff("degree_v_e", a.degree_v_e, adj.sum(axis=1)), diff("degree_v_f", a.degree_v_f, vf.sum(axis=1)),
                     diff("laplacian", np.asarray(a.laplacian.todense()), np.diag(adj.sum(axis=1)) - adj),
                     None if be == {k for k, v in d.items() if len(v) == 1} else "boundary edges", diff("hasBoundaries", bool(a.hasBoundaries), any(len(v) == 1 for v in d.values())))


@test("C16", "volume and orientation", 120)
class _:
    def gen(rng, i):
        c = mesh_case(rng, i, closed=bool(i % 5), jitter=.05)
        c["flip"] = bool(i % 3 == 0)
        c["v"] = c["v"] + rng.randn(3)
        c["lazy"] = bool(i % 2)
        return c

    def run(c):
        if len(c["f"]) and all(len(v) == 2 for v in M.edges_of(c["f"]).values()):
            if c["flip"]:
                c = dict(c, cw=not c["cw"])
                m = refuses(lambda: trimesh(c), "mesh oriented inside out")
                if m:
                    return m
                return refuses(lambda: trimesh(c, compute_adjacencies=False).adjacencies, "mesh oriented inside out (lazy)")
            m = trimesh(c, compute_adjacencies=not c["lazy"])
            w = m.compute_volume()
            m.set_vertices(c["v"] * [1, 2, -3])
            return first(diff("volume", w, M.signed_volume(c["f"], c["v"]) * (-1 if c["cw"] else 1)), diff("volume of the mirrored mesh", m.compute_volume(), -6 * w))
        return refuses(lambda: trimesh(c).compute_volume(), "volume of an open mesh")


@test("C17", "silhouette flags", 250)
class _:
    def gen(rng, i):
        c = mesh_case(rng, i)
        c["p"] = (c["v"].dot(M.rotation(rng).T))[:, :2] if i % 2 else np.round(rng.uniform(-3, 3, (len(c["v"]), 2)) * 2) / 2
        return c

    def run(c):
        m = trimesh(c)
        e, _ = M.silhouette(c["f"], c["p"], c["cw"])
        return diff("flags", np.asarray(m.edge_on_silhouette(c["p"].copy())).reshape(e.shape), e)


@test("C17", "non-manifold meshes are refused", 30)
class _:
    def gen(rng, i):
        return dict(f=np.array([[0, 1, 2], [1, 0, 3], [0, 1, 4]]) if i % 2 else np.array([[0, 1, 2], [0, 1, 3]]), v=rng.randn(5 if i % 2 else 4, 3), cw=bool(rng.rand() < .5))

    def run(c):
        m = trimesh(c)
        return refuses(lambda: m.edge_on_silhouette(c["v"][:, :2].copy()), "non-manifold mesh")


# ------------------------------------------------------------------ lighting
def colored(c, **kw):
    from deodr.triangulated_mesh import ColoredTriMesh
    return ColoredTriMesh(c["f"].copy(), c["v"].copy(), clockwise=c["cw"], colors=c["col"].copy(), **kw)


def light_case(rng, i):
    c = mesh_case(rng, i)
    c.update(col=rng.rand(len(c["v"]), int(rng.choice([1, 3, 4]))), light=rng.randn(3) if i % 4 else None, amb=float(rng.rand()))
    return c


@test("C18", "luminosity and its adjoint", 150)
class _:
    def gen(rng, i):
        c = light_case(rng, i)
        c["b"] = rng.randn(*c["col"].shape)
        return c

    def run(c):
        from deodr.differentiable_renderer import Scene3D
        s = Scene3D()
        m = colored(c)
        s.set_mesh(m)
        s.set_light(None if c["light"] is None else c["light"].copy(), c["amb"])
        nv = len(c["v"])
        L = M.luminosity(c["f"], c["v"], c["cw"], c["light"], c["amb"], nv)
        msgs = [diff("luminosity", s.compute_vertices_luminosity(), L)]
        s.store_backward_current = {}
        msgs.append(diff("lit colours", s._compute_vertices_colors_with_illumination(), c["col"] * L[:, None]))
        s._compute_vertices_colors_with_illumination_backward(c["b"].copy())
        n = m.vertex_normals

        def f(col, amb, light, n):
            d = 0 if light is None else np.where(np.real(-(n * light).sum(axis=1)) > 0, -(n * light).sum(axis=1), 0)
            return (col * (d + amb)[:, None] * c["b"]).sum() if light is not None else (col * amb * c["b"]).sum()
        msgs.append(diff("gradient of the colours", m.vertices_colors_b, csgrad(lambda x: f(x, c["amb"], c["light"], n), c["col"])))
        msgs.append(diff("gradient of the ambient light", s.light_ambient_b, csgrad(lambda x: f(c["col"], x[0], c["light"], n), [c["amb"]])[0]))
        if c["light"] is not None:
            msgs.append(diff("gradient of the directional light", s.light_directional_b, csgrad(lambda x: f(c["col"], c["amb"], x, n), c["light"])))
            msgs.append(diff("gradient of the normals", s.vertex_normals_b, csgrad(lambda x: f(c["col"], c["amb"], c["light"], x), n)))
        return first(*msgs)


# ------------------------------------------------------------------ rigidity
@test("C19", "rigidity energy", 120)
class _:
    def gen(rng, i):
        c = mesh_case(rng, i)
        c.update(ref=c["v"] + rng.randn(*c["v"].shape), x=rng.randn(*c["v"].shape), cregu=float(rng.uniform(.1, 2000)), t=rng.randn(3))
        return c

    def run(c):
        from deodr import LaplacianRigidEnergy
        m = trimesh(c)
        ref = c["ref"].copy()
        e = LaplacianRigidEnergy(m, ref, c["cregu"])
        ref += 5 + ref ** 2
        L = np.zeros((len(c["v"]),) * 2)
        for p, q in M.edges_of(c["f"]):
            L[p, q] = L[q, p] = -1
        L -= np.diag(L.sum(axis=1))
        D = c["x"] - c["ref"]
        x = c["x"].copy()
        en, g, H = e.evaluate(x)
        en0, g0, _ = e.evaluate(c["ref"] + c["t"])
        G = c["cregu"] * L.T @ L @ D
        return first(diff("energy", en, .5 * c["cregu"] * ((L @ D) ** 2).sum()), diff("gradient", g, G), diff("Hessian", H.toarray(), c["cregu"] * np.kron(L.T @ L, np.eye(3))),
                     diff("energy of a translation", en0, 0., 1e-6), diff("gradient of a translation", g0, 0 * g0, 1e-6), diff("argument", x, c["x"], 0),
                     "negative energy" if en < 0 else None)


@test("C19", "several components are refused", 20)
class _:
    def gen(rng, i):
        n = 2 + i % 2
        return dict(f=np.arange(3 * n).reshape(n, 3), v=rng.randn(3 * n, 3), cw=False)

    def run(c):
        from deodr import LaplacianRigidEnergy
        m = trimesh(c)
        return refuses(lambda: LaplacianRigidEnergy(m, c["v"], 1.), "mesh with several components")


# ------------------------------------------------------------------ tools
@test("C20", "rotations, normalisation, cross products and adjoints", 250)
class _:
    def gen(rng, i):
        q = rng.randn(4)
        qs = rng.randn(int(rng.randint(1, 4)), 4)
        return dict(q=q / np.linalg.norm(q), qs=qs / np.linalg.norm(qs, axis=1)[:, None], q0=rng.randn(4), v=rng.randn(int(rng.randint(1, 5)), 3), b=None, x=rng.randn(3, 4), seed=int(rng.randint(1 << 30)))

    def run(c):
        from deodr import tools as T
        rng = np.random.RandomState(c["seed"])
        v, q = c["v"], c["q"]
        b = rng.randn(*v.shape)

        def rot(q):
            x, y, z, w = q
            return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                             [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
        msgs = [diff("qrot", T.qrot(q.copy(), v.copy()), v.dot(rot(q).T)), diff("qrot of several quaternions", T.qrot(c["qs"].copy(), v.copy()), np.stack([v.dot(rot(a).T) for a in c["qs"]]))]
        # the adjoint is that of the polynomial map, for any quaternion
        q0 = c["q0"]
        qb, vb = T.qrot_backward(q0.copy(), v.copy(), b.copy())
        msgs += [diff("gradient of the quaternion", qb, csgrad(lambda a: (v.dot(rot(a).T) * b).sum(), q0)), diff("gradient of the vectors", vb, b.dot(rot(q0)))]
        for ax in (0, 1, -1):
            x = c["x"]
            xb = rng.randn(*x.shape)
            msgs += [diff(f"normalize axis {ax}", T.normalize(x.copy(), axis=ax), x / np.sqrt((x * x).sum(axis=ax, keepdims=True))),
                     diff(f"normalize_backward axis {ax}", T.normalize_backward(x.copy(), xb.copy(), axis=ax), csgrad(lambda y: (y / np.sqrt((y * y).sum(axis=ax, keepdims=True)) * xb).sum(), x))]
        u = rng.randn(*v.shape)
        ub, vb = T.cross_backward(u.copy(), v.copy(), b.copy())

        def cr(a, w):
            return sum((np.array(M.cross(a[i], w[i])) * b[i]).sum() for i in range(len(v)))
        y = rng.randn(4)
        yb = rng.randn(4)
        msgs += [diff("cross_backward u", ub, csgrad(lambda a: cr(a, v), u)), diff("cross_backward v", vb, csgrad(lambda a: cr(u, a), v)),
                 diff("normalize vector", T.normalize(y.copy()), y / np.sqrt((y * y).sum())),
                 diff("normalize_backward vector", T.normalize_backward(y.copy(), yb.copy()), csgrad(lambda z: (z / np.sqrt((z * z).sum()) * yb).sum(), y))]
        return first(*msgs)


# ------------------------------------------------------------------ 3D scenes
def scene3d_case(rng, i, grad=False):
    c = light_case(rng, i)
    H, W = int(rng.choice([4, 8])), int(rng.choice([5, 9]))
    c["cam"] = camera(rng, H, W, look=c["v"], skew=bool(rng.rand() < .5))
    C = c["col"].shape[1]
    c.update(sigma=float(rng.choice([0., .6, 1., 2.])), pc=bool(rng.rand() < .4) and not grad, ipc=bool(rng.rand() < .6), cull=bool(rng.rand() < .7) or grad, textured=False,
             bgi=rng.rand(H, W, C) if rng.rand() < .5 else None, bgc=rng.rand(C), ds=float(rng.uniform(.2, 3)))
    return c


def textured_case(rng, i):
    c = scene3d_case(rng, i)
    C = 3
    nuv = len(c["v"]) + 2
    c.update(textured=True, texture=rng.rand(4, 5, C), uv=rng.rand(nuv, 2) * [4, 3], fuv=np.stack([rng.permutation(nuv)[:3] for _ in c["f"]]).astype(np.uint32),
             bgi=rng.rand(c["cam"]["H"], c["cam"]["W"], C) if rng.rand() < .5 else None, bgc=rng.rand(C))
    return c


def real_scene3d(c, depth=False):
    from deodr.differentiable_renderer import Scene3D
    from deodr.triangulated_mesh import ColoredTriMesh
    s = Scene3D(sigma=c["sigma"], perspective_correct=c["pc"], integer_pixel_centers=c["ipc"])
    if c["textured"]:
        m = ColoredTriMesh(c["f"].copy(), c["v"].copy(), clockwise=c["cw"], faces_uv=c["fuv"].copy(), uv=c["uv"].copy(), texture=c["texture"].copy())
    else:
        m = colored(c)
    s.set_mesh(m)
    s.set_light(None if c["light"] is None else c["light"].copy(), c["amb"])
    if c["bgi"] is not None:
        s.set_background_image((c["bgi"][:, :, :1] if depth else c["bgi"]).copy())
    else:
        s.set_background_color((c["bgc"][:1] if depth else c["bgc"]).copy())
    return s, m


def scene2d_spec(c, v=None, col=None, light="c", amb=None, depth=False):
    """The 2D scene which the 3D scene stands for (complex allowed)."""
    v = c["v"] if v is None else v
    col = c.get("col") if col is None else col
    light = c["light"] if isinstance(light, str) else light
    amb = c["amb"] if amb is None else amb
    f, nv, nf = c["f"].astype(np.uint32), len(c["v"]), len(c["f"])
    p, z = M.project(c["cam"], v)
    L = M.luminosity(c["f"], v, c["cw"], light, amb, nv)
    flags = M.silhouette(c["f"], p, c["cw"])[0] if c["sigma"] > 0 else np.zeros((nf, 3), bool)
    tex = c["textured"] and not depth
    bgi, bgc = c["bgi"], None if c["bgi"] is not None else c["bgc"]
    if depth:
        bgi, bgc = None if bgi is None else bgi[:, :, :1], None if bgc is None else bgc[:1]
    C = 1 if depth else c["texture"].shape[2] if tex else col.shape[1]
    return S(faces=f, faces_uv=c["fuv"] if tex else f, ij=p, depths=z, textured=np.full(nf, tex), uv=c["uv"] if tex else np.zeros((nv, 2)), shade=L if tex else np.zeros(nv),
             colors=z[:, None] * c["ds"] if depth else np.zeros((nv, C)) if tex else col * L[:, None], shaded=np.full(nf, tex), edgeflags=flags, height=c["cam"]["H"],
             width=c["cam"]["W"], nb_colors=C, texture=c["texture"] if tex else np.zeros((0, 0)), background_image=bgi, background_color=bgc, clockwise=c["cw"],
             backface_culling=c["cull"], strict_edge=True, perspective_correct=c["pc"], integer_pixel_centers=c["ipc"])


def cmp_image(what, im, r, tol=1e-5):
    ok = ~r["amb"]
    return diff(what, np.where(ok[..., None], im, 0), np.where(ok[..., None], r["image"], 0), tol)


def _render_run(c):
    s, m = real_scene3d(c)
    cam = real_camera(c["cam"])
    im, z = s.render(cam, return_z_buffer=True, backface_culling=c["cull"])
    r = raster.forward(scene2d_spec(c), c["sigma"])
    r0 = raster.forward(scene2d_spec(c), 0.)
    ok = ~r0["amb"]
    im2 = s.render(cam, backface_culling=c["cull"])
    return first(cmp_image("image", im, r), diff("depth buffer", np.where(ok, z, 0), np.where(ok, r0["z"], 0), 1e-6), diff("second image", im2, im, 1e-12),
                 diff("vertices", m.vertices, c["v"], 0))


@test("C21", "colour rendering", 150)
class _:
    gen = scene3d_case
    run = _render_run


@test("C21", "textured rendering", 100)
class _:
    gen = textured_case
    run = _render_run


@test("C21", "depth rendering", 120)
class _:
    gen = scene3d_case

    def run(c):
        s, m = real_scene3d(c, depth=True)
        im = s.render_depth(real_camera(c["cam"]), depth_scale=c["ds"], backface_culling=c["cull"])
        return cmp_image("depth image", im, raster.forward(scene2d_spec(c, depth=True), c["sigma"]))


@test("C21", "deferred rendering", 200)
class _:
    def gen(rng, i):
        c = textured_case(rng, i) if i % 3 == 0 else scene3d_case(rng, i)
        c["sigma"] = 0.
        if not c["textured"]:
            c["col"] = rng.rand(len(c["v"]), 3)
        names = ("color", "depth", "face_id", "barycentric", "normal", "luminosity", "uv", "xyz")
        c["sel"] = [n for n in names if rng.rand() < .7] or ["depth", "normal"]
        if set(c["sel"]) <= ({"uv"} if not c["textured"] else {"color"}):
            c["sel"].append("depth")
        c["sel_all"] = list(names)
        return c

    def run(c):
        s, m = real_scene3d(c)
        out = s.render_deferred(real_camera(c["cam"]), depth_scale=c["ds"], backface_culling=c["cull"], **{n: n in c["sel"] for n in c["sel_all"]})
        want = [n for n in c["sel"] if not (n == "color" and c["textured"]) and not (n == "uv" and not c["textured"])]
        if sorted(out) != sorted(want):
            return f"buffers {sorted(out)}, requested {sorted(want)}"
        f, nf = c["f"], len(c["f"])
        n3 = 3 * nf
        idx = f.ravel()
        p, z = M.project(c["cam"], c["v"])
        attr = dict(depth=z[idx][:, None] * c["ds"], face_id=np.repeat(np.arange(nf), 3)[:, None], barycentric=np.tile(np.eye(3), (nf, 1)), xyz=c["v"][idx])
        vn = M.vertex_normals(f, c["v"], c["cw"])
        attr["normal"] = vn[idx]
        attr["luminosity"] = M.luminosity(f, c["v"], c["cw"], c["light"], c["amb"], len(c["v"]))[idx][:, None]
        if c["textured"]:
            attr["uv"] = c["uv"][c["fuv"].ravel()]
        else:
            attr["color"] = c["col"][idx]
        sf = np.arange(n3).reshape(nf, 3).astype(np.uint32)
        for name in want:
            a = attr[name].astype(float)
            C = a.shape[1]
            sp = S(faces=sf, faces_uv=sf, ij=p[idx], depths=z[idx], textured=np.zeros(nf, bool), uv=np.zeros((n3, 2)), shade=np.zeros(n3), colors=a, shaded=np.zeros(nf, bool),
                   edgeflags=np.zeros((nf, 3), bool), height=c["cam"]["H"], width=c["cam"]["W"], nb_colors=C, texture=np.zeros((0, 0)), background_image=None, background_color=np.zeros(C),
                   clockwise=c["cw"], backface_culling=c["cull"], strict_edge=True, perspective_correct=c["pc"], integer_pixel_centers=c["ipc"])
            r = raster.forward(sp)
            ok = ~r["amb"] & (r["owner"] >= 0)
            e = diff("buffer " + name, np.where(ok[..., None], out[name], 0), np.where(ok[..., None], r["image"], 0), 1e-5)
            if e:
                return e


def flags_stable(c, eps=1e-4):
    """The silhouette flags and facings do not change nearby and no clamped light is at its kink."""
    p, z = M.project(c["cam"], c["v"])
    for a, b, d in c["f"]:
        u, w = p[b] - p[a], p[d] - p[a]
        if abs(u[0] * w[1] - u[1] * w[0]) < eps:
            return False
    if c["light"] is not None:
        if np.abs((M.vertex_normals(c["f"], c["v"], c["cw"]) * c["light"]).sum(axis=1)).min() < eps:
            return False
    return True


@test("C22", "gradients of the 3D scene", 60)
class _:
    def gen(rng, i):
        c = scene3d_case(rng, i, grad=True)
        c["w"] = rng.randn(c["cam"]["H"], c["cam"]["W"], c["col"].shape[1])
        c["mode"] = ["once", "twice", "other view before"][i % 3]
        c["cam2"] = camera(rng, c["cam"]["H"], c["cam"]["W"], look=c["v"])
        return c

    def run(c):
        if not flags_stable(c):
            return None
        s, m = real_scene3d(c)
        sp = scene2d_spec(c)
        w = c["w"].copy()
        w[raster.forward(sp, c["sigma"], grad=True)["amb"]] = 0
        cam = real_camera(c["cam"])
        if c["mode"] == "other view before":
            im = s.render(real_camera(c["cam2"]))
            s.clear_gradients()
            s.render_backward(np.ones_like(im))
        s.render(cam)
        if c["mode"] == "twice":
            s.clear_gradients()
            s.render_backward(np.ones_like(w))
        s.clear_gradients()
        wb = w.copy()
        s.render_backward(wb)

        def f(**k):
            return np.where(w != 0, w * raster.forward(scene2d_spec(c, **k), c["sigma"])["image"], 0).sum()
        msgs = [diff("gradient of the vertices", m._vertices_b, csgrad(lambda x: f(v=x), c["v"]), 2e-5), diff("gradient of the colours", m.vertices_colors_b, csgrad(lambda x: f(col=x), c["col"]), 2e-5),
                diff("gradient of the ambient light", s.light_ambient_b, csgrad(lambda x: f(amb=x[0]), [c["amb"]])[0], 2e-5), diff("image gradient", wb, w, 0)]
        if c["light"] is not None:
            msgs.append(diff("gradient of the directional light", s.light_directional_b, csgrad(lambda x: f(light=x), c["light"]), 2e-5))
        return first(*msgs)


@test("C22", "gradients of the depth rendering", 60)
class _:
    def gen(rng, i):
        c = scene3d_case(rng, i, grad=True)
        c["w"] = rng.randn(c["cam"]["H"], c["cam"]["W"], 1)
        return c

    def run(c):
        if not flags_stable(c):
            return None
        s, m = real_scene3d(c, depth=True)
        w = c["w"].copy()
        w[raster.forward(scene2d_spec(c, depth=True), c["sigma"], grad=True)["amb"]] = 0
        s.render_depth(real_camera(c["cam"]), depth_scale=c["ds"])
        s.clear_gradients()
        s.render_depth_backward(w.copy())
        e = csgrad(lambda x: np.where(w != 0, w * raster.forward(scene2d_spec(c, v=x, depth=True), c["sigma"])["image"], 0).sum(), c["v"])
        return diff("gradient of the vertices", m._vertices_b, e, 2e-5)


# ------------------------------------------------------------------ subdivision
@test("C23", "loop subdivision", 120)
class _:
    def gen(rng, i):
        c = mesh_case(rng, i, closed=True if i % 4 else None)
        c["col"] = rng.rand(len(c["v"]), int(rng.choice([1, 3]))) if i % 3 else None
        c["n"] = int(rng.choice([1, 1, 2, 0]))
        c["cw"] = c["cw"]
        return c

    def run(c):
        from deodr.triangulated_mesh import ColoredTriMesh
        m = ColoredTriMesh(c["f"].copy(), c["v"].copy(), clockwise=c["cw"], colors=None if c["col"] is None else c["col"].copy(), nb_colors=3 if c["col"] is None else None)
        f, v, col = c["f"], c["v"], c["col"]
        bnd = any(len(x) == 1 for x in M.edges_of(f).values())
        r = m.subdivise(c["n"])
        for _ in range(c["n"]):
            d = M.edges_of(f)
            keys = list(d)
            nv = len(v)
            pts = {}
            for k, e in enumerate(keys):
                p = np.full(3, np.nan)
                if len(d[e]) == 2:
                    opp = [int(next(x for x in f[g] if x not in e)) for g, _ in d[e]]
                    p = 3 / 8 * (v[e[0]] + v[e[1]]) + 1 / 8 * (v[opp[0]] + v[opp[1]])
                pts[e] = p
            nb = {i: set() for i in range(nv)}
            for a, b in keys:
                nb[a].add(b)
                nb[b].add(a)
            moved = np.array([5 / 8 * v[i] + 3 / 8 * np.mean([v[j] for j in nb[i]], axis=0) for i in range(nv)])
            newv = np.vstack([moved] + [pts[e][None] for e in keys])
            ids = {e: nv + k for k, e in enumerate(keys)}
            nf = []
            for a, b, cc in f:
                ab, bc, ca = (ids[(min(x, y), max(x, y))] for x, y in ((a, b), (b, cc), (cc, a)))
                nf += [[a, ab, ca], [b, bc, ab], [cc, ca, bc], [ab, bc, ca]]
            if col is not None:
                col = np.vstack([col] + [((col[a] + col[b]) / 2)[None] for a, b in keys])
            f, v = np.array(nf), newv
            if bnd:
                break
        if bnd and c["n"] > 1:
            return None
        if r.clockwise != c["cw"]:
            return "orientation option lost"
        rv, rf = r.vertices, np.asarray(r.faces)
        if len(rv) != len(v) or rf.shape != f.shape:
            return f"{len(rv)} vertices and {len(rf)} faces, expected {len(v)} and {len(f)}"
        # compare as sets of oriented triangles of positions (and colours)

        def tri(F, V, K):
            P = V if K is None else np.hstack([V, K])
            P = np.where(np.isnan(P), 1e3, np.round(P, 7) + 0.)
            o = []
            for t in F:
                q = [tuple(P[int(j)]) for j in t]
                b = min(range(3), key=lambda j: q[j])
                o.append(tuple(q[b:] + q[:b]))
            return sorted(o)
        rv = np.array(rv)
        if bnd and c["n"] == 1:
            # the weights on boundary edges are not specified: mask those vertices
            if not np.allclose(rv[:len(c["v"])], v[:len(c["v"])], atol=1e-7):
                return "moved vertices"
            rv[len(c["v"]):] = 1e3
            v = v.copy()
            v[len(c["v"]):] = 1e3
        A, B = np.array(tri(rf, rv, r.vertices_colors if col is not None else None), float), np.array(tri(f, v, col), float)
        m1 = diff("subdivided triangles", A, B, 1e-5)
        if m1:
            return m1
        if not bnd and c["n"] > 0:
            if not (r.adjacencies.is_closed and r.adjacencies.is_manifold):
                return "the subdivided mesh is not closed"


# ------------------------------------------------------------------ fitters
def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def fit_case(rng, i):
    f, v, cw = M.mesh(rng, kind="octa", jitter=.1)
    if cw:
        f = np.ascontiguousarray(f[:, ::-1])
    return dict(f=f, v=v, euler=rng.randn(3) * .3, t=rng.randn(3) * .1, color=rng.rand(3), light=-rng.rand(3), amb=float(rng.rand()), H=9, W=9, img=rng.rand(9, 9, 3), imgs=rng.rand(3, 9, 9, 3),
                depth=rng.uniform(2, 6, (9, 9)), cregu=float(rng.uniform(1, 100)), cdata=float(rng.uniform(.3, 3)), nf=int(rng.choice([1, 2, 3])), seed=int(rng.randint(1 << 30)),
                dist=rng.randn(5) * .02 if i % 2 else None, bg=rng.rand(3), upl=bool(rng.rand() < .5), upc=bool(rng.rand() < .5))


def spec_image(c, fit, v, q, t, color, light, amb, depth=None):
    """Image of the fitted mesh, written from the statement (complex allowed)."""
    qn = q / np.sqrt((q * q).sum())
    x, y, z, w = qn
    R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                  [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
    vt = v.dot(R.T) + t
    cam = fit.camera
    d = dict(cam=dict(ext=cam.extrinsic, intr=cam.intrinsic, dist=cam.distortion, H=cam.height, W=cam.width), f=c["f"], v=np.real(vt), cw=False, sigma=1., textured=False, pc=False, ipc=True,
             cull=True, bgi=None, bgc=c["bg"], light=light, amb=amb, col=None, ds=1.)
    if depth is None:
        sp = scene2d_spec(d, v=vt, col=np.tile(color, (len(v), 1)), light=light, amb=amb)
    else:
        d["bgc"] = np.array([depth[0]])
        d["ds"] = depth[1]
        d["light"] = None
        sp = scene2d_spec(d, v=vt, light=None, amb=0., depth=True, col=np.zeros((len(v), 1)))
    return sp


def laplacian_energy(c, x, ref):
    L = np.zeros((len(ref),) * 2)
    for p, q in M.edges_of(c["f"]):
        L[p, q] = L[q, p] = -1
    L -= np.diag(L.sum(axis=1))
    D = x - ref
    return .5 * c["cregu"] * ((L @ D) ** 2).sum()


laplacian_energy_c = laplacian_energy


def _perturb(fit, c, rng, multi=None):
    fit.vertices = fit.vertices + .05 * rng.randn(*fit.vertices.shape)


@test("C24", "RGB fitter", 30)
class _:
    gen = fit_case

    def run(c):
        from deodr.mesh_fitter import MeshRGBFitterWithPose
        rng = np.random.RandomState(c["seed"])
        fit = MeshRGBFitterWithPose(c["v"].copy(), c["f"].copy(), c["euler"].copy(), c["t"].copy(), c["color"].copy(), c["light"].copy(), c["amb"], cregu=c["cregu"], update_lights=c["upl"], update_color=c["upc"])
        fit.set_background_color(c["bg"].copy())
        fit.set_image(c["img"].copy(), distortion=c["dist"])
        huge_steps(fit)
        _perturb(fit, c, rng)
        v0 = fit.vertices - fit.vertices.mean(axis=0)
        q, t = fit.transform_quaternion.copy(), fit.transform_translation.copy()

        def E(v=v0, q=q, t=t, color=c["color"], light=c["light"], amb=c["amb"]):
            r = raster.forward(spec_image(c, fit, v, q, t, color, light, amb), 1.)
            return ((r["image"] - c["img"]) ** 2).sum(), r
        e0, r = E()
        e, im, dimg = quiet(fit.step)
        if r["amb"].any():
            return None
        ta = np.array(t)
        g = csgrad(lambda x: E(v=x)[0], v0)
        msgs = [diff("image", im, r["image"], 1e-6), diff("residual", dimg, ((r["image"] - c["img"]) ** 2).sum(axis=2), 1e-6), diff("energy", e, e0 + laplacian_energy(c, v0, c["v"]), 1e-6),
                diff("vertices gradient", fit._vertices_b, g - g.mean(axis=0), 1e-5), diff("quaternion gradient", fit.transform_quaternion_b, csgrad(lambda x: E(q=x)[0], q), 1e-5),
                diff("translation gradient", fit.transform_translation_b, csgrad(lambda x: E(t=x)[0], ta), 1e-5), diff("colour gradient", fit.mesh_color_b, csgrad(lambda x: E(color=x)[0], c["color"]), 1e-5),
                diff("light gradient", fit.light_directional_b, csgrad(lambda x: E(light=x)[0], c["light"]), 1e-5), diff("ambient gradient", fit.light_ambient_b, csgrad(lambda x: E(amb=x[0])[0], [c["amb"]])[0], 1e-5)]
        msgs += used_gradients(fit, c, g - g.mean(axis=0), fit.transform_quaternion_b, fit.transform_translation_b, c["v"], v0)
        msgs += after_steps(fit, c)
        return first(*msgs)


def huge_steps(fit):
    """No clamping, so that the speeds after the first step show the gradients that were used."""
    fit.step_max_vertices = fit.step_max_quaternion = fit.step_max_translation = 1e30


def used(fit, x, fac=None):
    """Gradient implied by a speed after the first step."""
    return -np.asarray(x) / ((1 - fit.damping) * (1 - fit.inertia) * fac)


def used_gradients(fit, c, g, gq, gt, ref, x, tol=1e-5):
    L = np.zeros((len(ref),) * 2)
    for p, q in M.edges_of(c["f"]):
        L[p, q] = L[q, p] = -1
    L -= np.diag(L.sum(axis=1))
    return [diff("vertices gradient used by the step", used(fit, fit.speed_vertices, fit.step_factor_vertices), g + c["cregu"] * L.T @ L @ (x - ref), tol),
            diff("quaternion gradient used by the step", used(fit, fit.speed_quaternion, fit.step_factor_quaternion), gq, tol),
            diff("translation gradient used by the step", used(fit, fit.speed_translation, fit.step_factor_translation), gt, tol)]


def after_steps(fit, c, q0=None):
    quiet(fit.step)
    msgs = []
    moved_l = not (np.array_equal(fit.light_directional, c["light"]) and fit.light_ambient == c["amb"])
    moved_c = not np.array_equal(fit.mesh_color, c["color"])
    if moved_l and not c["upl"]:
        msgs.append("lights changed although their update is disabled")
    if moved_c and not c["upc"]:
        msgs.append("colours changed although their update is disabled")
    fit.reset()
    msgs += [diff("vertices after reset", fit.vertices, c["v"], 0), diff("light after reset", fit.light_directional, c["light"], 0), diff("ambient after reset", fit.light_ambient, c["amb"], 0),
             diff("colour after reset", fit.mesh_color, c["color"], 0), diff("translation after reset", fit.transform_translation, fit.transform_translation_init, 0),
             diff("quaternion after reset", fit.transform_quaternion, fit.transform_quaternion_init, 0), None if not np.any(fit.speed_vertices) and not np.any(fit.speed_quaternion) and
             not np.any(fit.speed_translation) and not np.any(fit.speed_light_directional) and not np.any(fit.speed_light_ambient) and not np.any(fit.speed_mesh_color) else "speeds after reset"]
    return msgs


@test("C24", "depth fitter", 30)
class _:
    gen = fit_case

    def run(c):
        from deodr.mesh_fitter import MeshDepthFitter
        rng = np.random.RandomState(c["seed"])
        fit = MeshDepthFitter(c["v"].copy(), c["f"].copy(), c["euler"].copy(), c["t"].copy(), cregu=c["cregu"])
        md, ds = float(rng.uniform(4, 8)), float(rng.uniform(.5, 1.5))
        fit.set_max_depth(md)
        fit.set_depth_scale(ds)
        fit.set_image(c["depth"].copy(), distortion=c["dist"])
        huge_steps(fit)
        _perturb(fit, c, rng)
        v0 = fit.vertices - fit.vertices.mean(axis=0)
        q, t = fit.transform_quaternion.copy(), fit.transform_translation.copy()

        def E(v=v0, q=q, t=t):
            r = raster.forward(spec_image(c, fit, v, q, t, None, None, 0., depth=(md, ds)), 1.)
            im = r["image"]
            im = np.where(np.real(im) < 0, 0, np.where(np.real(im) > md, md, im))
            return ((im - c["depth"][:, :, None]) ** 2).sum(), r, im
        e0, r, im0 = E()
        e, im, dimg = quiet(fit.step)
        if r["amb"].any():
            return None
        g = csgrad(lambda x: E(v=x)[0], v0)
        msgs = [diff("depth", im, im0[:, :, 0], 1e-6), diff("residual", dimg, ((im0 - c["depth"][:, :, None]) ** 2).sum(axis=2), 1e-6), diff("energy", e, e0 + laplacian_energy(c, v0, c["v"]), 1e-6),
                diff("vertices gradient", fit._vertices_b, g - g.mean(axis=0), 1e-5), diff("quaternion gradient", fit.transform_quaternion_b, csgrad(lambda x: E(q=x)[0], q), 1e-5),
                diff("translation gradient", fit.transform_translation_b, csgrad(lambda x: E(t=x)[0], t), 1e-5)]
        msgs += used_gradients(fit, c, g - g.mean(axis=0), fit.transform_quaternion_b, fit.transform_translation_b, c["v"], v0)
        fit.reset()
        msgs += [diff("vertices after reset", fit.vertices, c["v"], 0), diff("translation after reset", fit.transform_translation, c["t"], 0), diff("quaternion after reset", fit.transform_quaternion, q, 0),
                 None if not np.any(fit.speed_vertices) and not np.any(fit.speed_quaternion) and not np.any(fit.speed_translation) else "speeds after reset"]
        return first(*msgs)


@test("C24", "multi-frame fitter", 24)
class _:
    gen = fit_case

    def run(c):
        from deodr.mesh_fitter import MeshRGBFitterWithPoseMultiFrame
        rng = np.random.RandomState(c["seed"])
        n = c["nf"]
        eu, tr = c["euler"] + .1 * rng.randn(n, 3), c["t"] + .1 * rng.randn(n, 3)
        imgs = [x.copy() for x in c["imgs"][:n]]
        fit = MeshRGBFitterWithPoseMultiFrame(c["v"].copy(), c["f"].copy(), eu, tr, c["color"].copy(), c["light"].copy(), c["amb"], cregu=c["cregu"], cdata=c["cdata"], update_lights=c["upl"], update_color=c["upc"])
        fit.set_background_color(c["bg"].copy())
        fit.set_images(imgs)
        huge_steps(fit)
        if rng.rand() < .5:
            fit.iter = 1000
        _perturb(fit, c, rng)
        v0 = fit.vertices - fit.vertices.mean(axis=0)
        q, t = fit.transform_quaternion.copy(), fit.transform_translation.copy()
        it = fit.iter

        def E(v=v0, q=q, t=t, color=c["color"], light=c["light"], amb=c["amb"]):
            rs = [raster.forward(spec_image(c, fit, v, q[k], t[k], color, light, amb), 1.) for k in range(n)]
            return c["cdata"] / n * sum(((r["image"] - c["imgs"][k]) ** 2).sum() for k, r in enumerate(rs)), rs
        e0, rs = E()
        e, im, dimg = quiet(fit.step)
        if any(r["amb"].any() for r in rs):
            return None
        g = csgrad(lambda x: E(v=x)[0], v0)
        if it < 500:
            g = g - g.mean(axis=0)
        msgs = [diff("image", im[k], rs[k]["image"], 1e-6) for k in range(n)] + [diff("residual", dimg[k], ((rs[k]["image"] - c["imgs"][k]) ** 2).sum(axis=2), 1e-6) for k in range(n)]
        msgs += [diff("energy", e, e0 + laplacian_energy(c, v0, c["v"]), 1e-6), diff("vertices gradient", fit._vertices_b, g, 1e-5), diff("quaternion gradient", fit.transform_quaternion_b, csgrad(lambda x: E(q=x)[0], q), 1e-5),
                 diff("translation gradient", fit.transform_translation_b, csgrad(lambda x: E(t=x)[0], t), 1e-5), diff("colour gradient", fit.mesh_color_b, csgrad(lambda x: E(color=x)[0], c["color"]), 1e-5),
                 diff("light gradient", fit.light_directional_b, csgrad(lambda x: E(light=x)[0], c["light"]), 1e-5), diff("ambient gradient", fit.light_ambient_b, csgrad(lambda x: E(amb=x[0])[0], [c["amb"]])[0], 1e-5)]
        msgs += used_gradients(fit, c, g, fit.transform_quaternion_b, fit.transform_translation_b, c["v"], v0)
        msgs += after_steps(fit, c)
        return first(*msgs)
