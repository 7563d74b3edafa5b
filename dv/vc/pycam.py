"""C12, C13: the cameras of deodr/differentiable_renderer.py"""
from .pyver import *
from .pytools import quat_matrix

PATH = "deodr/differentiable_renderer.py"


def camera(p, dist, checks=True, rot=None):
    dr = p.get("dr")
    ext = symbol("ext", 3, 4) if rot is None else nps.np_column_stack((rot, symbol("t", 3)))
    k = symbol("K", 2, 3)
    intr = nps.np_vstack((k, asA([0, 0, 1])))
    d = symbol("dist", 5) if dist else None
    cam = []
    e = p.raises(lambda: cam.append(dr.Camera(extrinsic=ext, intrinsic=intr, height=var("H", "I"), width=var("W", "I"), distortion=d, checks=checks)))
    if e is not None:
        raise Infeasible   # refused: not a camera
    return cam[0], ext, intr, d


def spec_project(ext, intr, d, X):
    """OpenCV's pinhole model for one point X (list of 3 terms): (u, v), depth"""
    c = [sum((num(ext.at(i, k)) * X[k] for k in range(3)), P.of(0)) + num(ext.at(i, 3)) for i in range(3)]
    x, y = c[0] / c[2], c[1] / c[2]
    if d is not None:
        k1, k2, p1, p2, k3 = [num(d.at(i)) for i in range(5)]
        r2 = x * x + y * y
        rad = 1 + k1 * r2 + k2 * r2 ** 2 + k3 * r2 ** 3
        x, y = x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x * x), y * rad + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y
    uv = [num(intr.at(i, 0)) * x + num(intr.at(i, 1)) * y + num(intr.at(i, 2)) for i in range(2)]
    return uv, c[2]


def v_project(rep):
    for dist in (False, True):
        p = Py(rep, "Camera.project_points " + ("with" if dist else "without") + " distortion")

        def run(p):
            cam, ext, intr, d = camera(p, dist, checks=not dist)
            N = B("N")
            pts = symbol("X", N, 3)
            uv, z = cam.project_points(pts)

            def want(i, k=None):
                return spec_project(ext, intr, d, [num(pts.at(i, j)) for j in range(3)])
            p.eq("image coordinates", uv, new((N, 2), lambda t: want(t[0])[0][t[1]]))
            p.eq("depths", z, new((N,), lambda t: want(t[0])[1]))
            st = {}
            uv2 = cam.project_points(pts, return_depths=False, store_backward=st)
            p.eq("image coordinates alone", uv2, uv)
            uv3, z3 = cam.project_points(pts, True, st)
            p.eq("image coordinates when stored", uv3, uv)
            p.eq("depths when stored", z3, z)
            p.eq("camera frame", cam.world_to_camera(pts), new((N, 3), lambda t: sum((num(ext.at(t[1], k)) * num(pts.at(t[0], k)) for k in range(3)), P.of(0)) + num(ext.at(t[1], 3))))
            p.unchanged("arguments", points=pts, extrinsic=ext)
        p.run(run)
    p.use(PATH, "Camera.__init__", "Camera.project_points", "Camera.world_to_camera", "Camera.left_mul_intrinsic", "Camera.column_stack")


def v_center(rep):
    for sign in (1, -1):
        p = Py(rep, "Camera centre and inverse" + ("" if sign == 1 else ", mirrored frame"))

        def run(p):
            rot = quat_matrix(sign)
            cam, ext, intr, d = camera(p, False, checks=False, rot=rot)
            ctr = cam.get_center()
            N = B("N")
            p.eq("the centre maps to the origin", cam.world_to_camera(ctr), nps.np_zeros(3))
            m = cam.camera_to_world_mtx_4x4()
            e4 = nps.np_vstack((ext, asA([0, 0, 0, 1])))
            p.eq("inverse transform", nps.np_dot(e4, m), nps.np_eye(4))
            p.eq("inverse transform, other side", nps.np_dot(m, e4), nps.np_eye(4))
            p.unchanged("arguments", extrinsic=ext)
        p.run(run)
    p.use(PATH, "Camera.get_center", "Camera.camera_to_world_mtx_4x4")
    for given in (True, False):
        p = Py(rep, "PerspectiveCamera" + ("" if given else ", identity rotation"))

        def persp(p):
            dr = p.get("dr")
            rot = quat_matrix(1) if given else None
            ctr = symbol("centre", 3)
            d = symbol("dist", 5)
            w, h, fov = var("W", "I"), var("H", "I"), var("fov")
            p.c.assume(cmp("<", 0, w))
            p.c.assume(cmp("<", 0, h))
            if given:
                p.c.assume(cmp("<", 0, num(nps.np_det(rot).item())))
            cam = []
            e = p.raises(lambda: cam.append(dr.PerspectiveCamera(w, h, fov, ctr, rot, d)))
            p.true("accepted", e is None, f"{type(e).__name__}: {e}")
            if e is not None:
                return
            cam = cam[0]
            p.eq("centre", cam.get_center(), ctr)
            p.eq("rotation", cam.extrinsic[:, :3], rot if given else nps.np_eye(3))
            p.eq("horizontal field of view", cam.xfov, fov)
            t = app("tan", fov * var("pi") / 360)
            f = w / (2 * t)
            p.eq("intrinsic matrix", cam.intrinsic, asA([[f, 0, w / 2], [0, f, h / 2], [0, 0, 1]]))
            p.eq("vertical field of view", cam.yfov, app("arctan", h / w * t) * 360 / var("pi"))
            p.eq("distortion", cam.distortion, d)
            p.true("size", nps.truth(band(cmp("==", num(cam.width), w), cmp("==", num(cam.height), h))))
        p.run(persp)
    p.use(PATH, "PerspectiveCamera.__init__", "Camera.xfov", "Camera.yfov")


def v_default(rep):
    """The automatic camera: every vertex is in front of it and projects into the image."""
    for dist in (False, True):
        p = Py(rep, "default_camera" + (", distortion given" if dist else ""))

        def run(p):
            dr = p.get("dr")
            N = B("N")
            x, rot = symbol("X", N, 3), quat_matrix(1)
            w, h, fov, t = var("W", "I"), var("H", "I"), var("fov"), app("tan", var("fov") * var("pi") / 360)
            d = symbol("dist", 5) if dist else None
            for v in (w, h, N.base.size, t):
                p.c.assume(cmp("<", 0, v))
            p.c.assume(cmp("<", 0, num(nps.np_det(rot).item())))
            cam = []
            e = p.raises(lambda: cam.append(dr.default_camera(w, h, fov, x, rot, d)))
            p.true("accepted", e is None, f"{type(e).__name__}: {e}")
            if e is not None:
                return
            cam = cam[0]
            p.eq("given rotation", cam.extrinsic[:, :3], rot)
            p.eq("given distortion", cam.distortion, d) if dist else p.true("no distortion", cam.distortion is None)
            p.true("given size", nps.truth(band(cmp("==", num(cam.width), w), cmp("==", num(cam.height), h))))
            f = w / (2 * t)
            p.eq("intrinsic matrix of the field of view", cam.intrinsic, asA([[f, 0, w / 2], [0, f, h / 2], [0, 0, 1]]))
            # the box of the vertices in the directions of the camera
            cv = nps.np_dot(x, rot.T)
            lo, hi = nps.np_min(cv, 0), nps.np_max(cv, 0)
            size = [num(hi.at(j)) - num(lo.at(j)) for j in range(3)]
            mid = [(num(hi.at(j)) + num(lo.at(j))) / 2 for j in range(3)]
            fit = [size[0] / 2 / t, size[1] / 2 * w / h / t]

            def want(D):
                return nps.np_column_stack([new((N,), lambda i, j=j: num(cv.at(i[0], j)) - mid[j] + (D if j == 2 else P.of(0))) for j in range(3)])
            got = cam.world_to_camera(x)
            q = Py(type(p.rep)(), "comparison")
            q.c = p.c
            # the maximum of two numbers, in either order
            ds = [nps.vmax(*fit) + size[2] / 2, nps.vmax(*fit[::-1]) + size[2] / 2]
            D = ds[1] if q.eq("", got, want(ds[1])) else ds[0]
            p.eq("in front of the middle of the box, at the distance that fits its front face", got, want(D))
        p.run(run)
    p = Py(rep, "default_camera: the box fits")

    def lemma(p):
        # half sizes of the box, a point of the box relative to its middle
        a, b, c, x, y, z, t, w, h, D = (var(n) for n in ("a", "b", "c", "x", "y", "z", "t", "w", "h", "D"))
        inv = var("invt")   # one over the tangent
        for q in (w, h, inv):
            p.c.assume(cmp("<", 0, q))
        for q, m in ((x, a), (y, b), (z, c)):
            p.c.assume(band(cmp("<=", q, m), cmp("<=", -m, q)))
        p.c.assume(cmp("<=", a * inv + c, D))
        p.c.assume(cmp("<=", b * w * inv + c * h, D * h))
        p.true("behind the optical centre is nothing", cmp("<=", 0, z + D))
        p.true("in front of it, if the box is not a segment along the axis", bor(cmp("<", 0, z + D), band(cmp("==", a, 0), cmp("==", b, 0))))
        u, v = inv * w / 2 * x, inv * w / 2 * y   # image coordinates times depth, relative to the middle
        for s in (1, -1):
            p.true("columns within the image", cmp("<=", s * u, w / 2 * (z + D)))
            p.true("rows within the image", cmp("<=", s * v, h / 2 * (z + D)))
    p.run(lemma)
    p.use(PATH, "default_camera", "PerspectiveCamera.__init__")


def v_backward(rep):
    for dist in (False, True):
        for depths in (False, True):
            p = Py(rep, "Camera.project_points_backward " + ("with" if dist else "without") + " distortion, " + ("with" if depths else "without") + " depths")

            def run(p):
                cam, ext, intr, d = camera(p, dist, checks=False)
                N = B("N")
                pts, w = symbol("X", N, 3), symbol("w", N, 2)
                wd = symbol("wd", N) if depths else None
                st = {}
                # callee by its contract (proved for Camera.project_points): camera coordinates are affine in the points
                pc = symbol("Xc", N, 3)
                cam.world_to_camera = lambda x: pc.copy() if x is pts else type(cam).world_to_camera(cam, x)
                deps = {"Xc": lambda e, v: delta(e[0], v[0]) * num(ext.at(e[1].const(), v[1].const()))}
                uv, z = cam.project_points(pts, store_backward=st)
                L = p.dot(w, uv)
                if depths:
                    L = L + p.dot(wd, z)
                    g = cam.project_points_backward(w, depths_b=wd, store_backward=st)
                else:
                    g = cam.project_points_backward(w, st)
                p.adjoint("gradient of the points", L, pts, g, deps=deps)
                g2 = cam.project_points_backward(w, st, wd)
                p.eq("repeated", g2, g)
                p.unchanged("arguments", points=pts, gradient=w, **({"depth gradient": wd} if depths else {}))
            p.run(run)
    p.use(PATH, "Camera.project_points_backward", "Camera.project_points")
