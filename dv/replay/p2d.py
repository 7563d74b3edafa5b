"""2.5D renderer: C01 to C11 and C27."""
import numpy as np
from ..oracle import raster, gen, real
from ..oracle.raster import S
from .core import test, finding, diff, first, close

FW = dict(sigma=0.0)


def base(**kw):
    d = dict(faces=np.array([[0, 1, 2]], np.uint32), faces_uv=np.array([[0, 1, 2]], np.uint32), ij=np.array([[1., 1.], [6., 1.], [1., 6.]]),
             depths=np.ones(3), textured=np.zeros(1, bool), uv=np.zeros((3, 2)), shade=np.ones(3), colors=np.ones((3, 1)), shaded=np.zeros(1, bool),
             edgeflags=np.zeros((1, 3), bool), height=9, width=9, nb_colors=1, texture=np.zeros((0, 0)), background_image=None,
             background_color=np.zeros(1), clockwise=True, backface_culling=True, strict_edge=True, perspective_correct=False, integer_pixel_centers=True)
    d.update(kw)
    return S(**d)


def orient(s):
    """Turn every triangle to the front."""
    for k in range(len(s.faces)):
        V = s.ij[s.faces[k]]
        a = raster.cross2(V[1] - V[0], V[2] - V[0])
        if (a > 0) != s.clockwise:
            s.faces[k] = s.faces[k][::-1]
            s.faces_uv[k] = s.faces_uv[k][::-1]
    return s


# ------------------------------------------------------------------ C01
@test("C01", "coverage of one triangle, exact arithmetic", 2500)
class _:
    def gen(rng, i):
        H, W = int(rng.choice([1, 3, 7, 12])), int(rng.choice([1, 3, 7, 12]))
        step = rng.choice([1, .5, .25])
        ij = np.stack([gen.grid(rng, 3, -3, W + 2, step), gen.grid(rng, 3, -3, H + 2, step)], 1)
        if rng.rand() < .3:
            a, b = rng.permutation(3)[:2]
            ij[a, rng.randint(2)] = ij[b, rng.randint(2)]
        return dict(s=orient(base(ij=ij, height=H, width=W, clockwise=bool(rng.rand() < .5), strict_edge=bool(i % 2), integer_pixel_centers=bool(rng.rand() < .6),
                                  perspective_correct=bool(rng.rand() < .3), backface_culling=bool(rng.rand() < .7))))

    def run(c):
        s = c["s"]
        im, z = real.render(s)
        m = raster.forward(s, exact=True)["owner"] >= 0
        return first(diff("covered", np.isfinite(z), m), diff("image changed", im[:, :, 0] != 0, m))


@test("C01", "coverage of one triangle, any coordinates", 1500)
class _:
    def gen(rng, i):
        s = gen.scene(rng, nt=1, mode="generic")
        s.texture = np.ones((2, 2, s.nb_colors))
        s.shade[:] = 1
        s.colors[:] = 1
        s.background_image = None
        s.background_color = np.zeros(s.nb_colors)
        if rng.rand() < .2:
            s.ij *= 10 ** rng.uniform(0, 5)
        return dict(s=orient(s))

    def run(c):
        s = c["s"]
        im, z = real.render(s)
        r = raster.forward(s)
        ok = ~r["amb"]
        m = r["owner"] >= 0
        return first(diff("covered", np.isfinite(z) & ok, m & ok), diff("image changed", (np.abs(im).sum(axis=2) != 0) & ok, m & ok))


@test("C01", "triangles sharing edges leave neither gap nor overlap", 600)
class _:
    def gen(rng, i):
        H, W = 9, 9
        step = rng.choice([1, .5, .25])
        n = int(rng.choice([4, 5, 6]))
        a = np.sort(rng.rand(n)) * 2 * np.pi
        c = gen.grid(rng, 2, 3, 6, step)
        ring = np.round((c + 4 * np.stack([np.cos(a), np.sin(a)], 1)) / step) * step
        ij = np.vstack([c, ring])
        return dict(ij=ij, W=W, H=H, ipc=bool(rng.rand() < .5))

    def run(c):
        ij = c["ij"]
        n = len(ij) - 1
        cov = np.zeros((c["H"], c["W"]))
        for k in range(n):
            V = ij[[0, 1 + k, 1 + (k + 1) % n]]
            if raster.cross2(V[1] - V[0], V[2] - V[0]) <= 0:
                return None
            s = orient(base(ij=V, height=c["H"], width=c["W"], integer_pixel_centers=c["ipc"]))
            cov += np.isfinite(real.render(s)[1])
        o = 0 if c["ipc"] else .5
        Y, X = np.meshgrid(np.arange(c["H"]) + o, np.arange(c["W"]) + o, indexing="ij")
        inside, onb = np.zeros(X.shape, bool), np.zeros(X.shape, bool)
        for k in range(n):
            m, _ = raster.covered(ij[[0, 1 + k, 1 + (k + 1) % n]], X, Y, False, True)
            inside |= m
            P, Q = ij[1 + k], ij[1 + (k + 1) % n]
            onb |= (Q[0] - P[0]) * (Y - P[1]) - (Q[1] - P[1]) * (X - P[0]) == 0
        if n * 1.0 != sum(1 for _ in range(n)):
            return None
        return first(diff("number of triangles covering an interior pixel", cov[inside & ~onb], np.ones((inside & ~onb).sum())),
                     None if cov.max() <= 1 else f"a pixel is covered {int(cov.max())} times")


# ------------------------------------------------------------------ C02
def visible(c, exact=False, tol=1e-6):
    s = c["s"]
    im, z = real.render(s)
    r = raster.forward(s, exact=exact)
    ok = ~r["amb"]
    return first(diff("depth buffer", np.where(ok, z, 0), np.where(ok, r["z"], 0), tol),
                 diff("image", np.where(ok[..., None], im, 0), np.where(ok[..., None], r["image"], 0), tol))


@test("C02", "visible triangle and depth", 2000)
class _:
    def gen(rng, i):
        s = gen.scene(rng, mode=rng.choice(["generic", "grid"]), textured=False, nt=int(rng.choice([1, 2, 4, 7])), shared=False,
                      backface_culling=bool(rng.rand() < .6))
        for k in range(len(s.faces)):
            s.colors[s.faces[k]] = rng.rand(s.nb_colors)
        if rng.rand() < .3:
            s.depths[rng.randint(len(s.depths))] *= -1
        return dict(s=s)

    run = visible


@test("C02", "exact depth ties: first triangle in face order", 300)
class _:
    def gen(rng, i):
        H, W = 8, 8
        ij = np.vstack([np.stack([gen.grid(rng, 3, -2, 9, .5), gen.grid(rng, 3, -2, 9, .5)], 1) for _ in range(3)])
        if i % 2:
            ij[3:6] = ij[:3]
        s = base(ij=ij, faces=np.arange(9).reshape(3, 3).astype(np.uint32), faces_uv=np.arange(9).reshape(3, 3).astype(np.uint32), uv=np.zeros((9, 2)),
                 depths=np.repeat(rng.choice([1., 1., 2.], 3), 3), colors=np.repeat(np.array([[1.], [2.], [3.]]), 3, axis=0), shade=np.ones(9), textured=np.zeros(3, bool),
                 shaded=np.zeros(3, bool), edgeflags=np.zeros((3, 3), bool), height=H, width=W, backface_culling=False)
        return dict(s=s)

    def run(c):
        s = c["s"]
        im, z = real.render(s)
        # constant depths: the decisions are exact
        own = np.full((s.height, s.width), 0.)
        zz = np.full((s.height, s.width), np.inf)
        Y, X = np.meshgrid(np.arange(s.height), np.arange(s.width), indexing="ij")
        for k in range(3):
            V = s.ij[s.faces[k]]
            if raster.cross2(V[1] - V[0], V[2] - V[0]) == 0:
                continue
            m, _ = raster.covered(V, X, Y, True, True)
            d = s.depths[3 * k]
            w = m & (d < zz)
            zz[w] = d
            own[w] = k + 1
        # the interpolation of a constant depth can round: the depths that compete at a pixel are those of each triangle alone
        alone = []
        for k in range(3):
            f = s.faces[k:k + 1]
            sk = S(**{**vars(s), **dict(faces=f, faces_uv=f, textured=s.textured[:1], shaded=s.shaded[:1], edgeflags=s.edgeflags[:1])})
            alone.append(real.render(sk)[1])
        win, zw = np.zeros(z.shape), np.full(z.shape, np.inf)
        for k in range(3):
            w = alone[k] < zw
            zw[w], win[w] = alone[k][w], k + 1
        return first(diff("depth", np.where(np.isfinite(z), z, -1), np.where(np.isfinite(zz), zz, -1), 1e-9), diff("depth of the nearest triangle", np.where(np.isfinite(z), z, -1), np.where(np.isfinite(zw), zw, -1), 0),
                     diff("visible", np.round(im[:, :, 0], 6), win))


@test("C02", "culling, orientation, area and triangles behind the camera", 500)
class _:
    def gen(rng, i):
        s = base(ij=gen.grid(rng, 6, -2, 9, .5).reshape(3, 2), clockwise=bool(i & 1), backface_culling=bool(i & 2), perspective_correct=bool(i & 4))
        s.depths = rng.uniform(.5, 2, 3) * rng.choice([1, 1, 1, -1], 3)
        if rng.rand() < .2:
            s.ij[2] = s.ij[0]
        return dict(s=s)

    def run(c):
        s = c["s"]
        im, z = real.render(s)
        r = raster.forward(s, exact=True)
        return first(diff("drawn", np.isfinite(z), r["owner"] >= 0), diff("depth", np.where(np.isfinite(z), z, -1), np.where(r["owner"] >= 0, r["z"], -1), 1e-6))


@test("C02", "background", 60)
class _:
    def gen(rng, i):
        s = gen.scene(rng, nt=1, height=int(rng.randint(1, 5)), width=int(rng.randint(1, 6)), nb_colors=3, C=3)
        s.ij -= 1000
        if i % 2:
            s.background_image, s.background_color = rng.rand(s.height, s.width, 3), None
        else:
            s.background_image, s.background_color = None, rng.rand(3)
        s.colors, s.texture = rng.rand(len(s.depths), 3), rng.rand(2, 2, 3)
        return dict(s=s)

    run = visible


# ------------------------------------------------------------------ C03 / C04
@test("C03", "interpolated colours", 2500)
class _:
    def gen(rng, i):
        s = gen.scene(rng, textured=False, C=int(rng.choice([1, 2, 3, 5, 8])) if i % 12 else int(rng.choice([16, 17, 31, 32, 33, 40, 64, 65, 100, 128, 130, 257, 300])), mode=rng.choice(["generic", "grid"]), perspective_correct=bool(i % 2),
                      backface_culling=bool(rng.rand() < .7))
        if rng.rand() < .3:
            s.depths *= 10 ** rng.uniform(-3, 3)
        return dict(s=s)

    run = visible


@test("C04", "textured triangles", 2500)
class _:
    def gen(rng, i):
        C = int(rng.choice([1, 3, 4]))
        th, tw = int(rng.choice([1, 2, 3, 7])), int(rng.choice([1, 2, 3, 5]))
        s = gen.scene(rng, textured=rng.choice([True, True, None]), C=C, mode=rng.choice(["generic", "grid"]), perspective_correct=bool(i % 2),
                      distinct_uv=True, texture=rng.rand(th, tw, C))
        s.uv = rng.uniform(-1.5, 1.5, s.uv.shape) * [tw, th] + [tw / 2, th / 2]
        if rng.rand() < .3:
            s.uv = np.round(s.uv)
        if rng.rand() < .2:
            s.uv *= 1e4
        return dict(s=s)

    def run(c):
        s = c["s"]
        im, z = real.render(s)
        r = raster.forward(s)
        ok = ~r["amb"]
        return diff("image", np.where(ok[..., None], im, 0), np.where(ok[..., None], r["image"], 0), 1e-5 if np.abs(s.uv).max() < 1e3 else 1e-3)


# ------------------------------------------------------------------ C05 / C06
def aa_gen(rng, i, **kw):
    s = gen.scene(rng, mode=rng.choice(["generic", "generic", "grid"]), nt=int(rng.choice([1, 2, 3, 6])), **kw)
    if rng.rand() < .3:
        s.backface_culling = False
    if rng.rand() < .3:
        s.edgeflags[:] = True
    return s


@test("C05", "antialiased image", 2200)
class _:
    def gen(rng, i):
        return dict(s=aa_gen(rng, i), sigma=float(rng.choice([.5, 1, 2.3, 5])))

    def run(c):
        s, sigma = c["s"], c["sigma"]
        im, z = real.render(s, sigma)
        r = raster.forward(s, sigma)
        r0 = raster.forward(s, 0.)
        ok, ok0 = ~r["amb"], ~r0["amb"]
        return first(diff("depth buffer", np.where(ok0, z, 0), np.where(ok0, r0["z"], 0), 1e-6),
                     diff("image", np.where(ok[..., None], im, 0), np.where(ok[..., None], r["image"], 0), 1e-5))


@test("C05", "no change with a zero width or without flag", 150)
class _:
    def gen(rng, i):
        s = aa_gen(rng, i)
        if i % 2:
            s.edgeflags[:] = False
        return dict(s=s, sigma=1.5 if i % 2 else 0.)

    def run(c):
        s = c["s"]
        im, z = real.render(s, c["sigma"])
        f = s.copy()
        f.edgeflags = np.zeros_like(s.edgeflags)
        im0, z0 = real.render(f, 0.)
        return first(diff("image", im, im0, 0), diff("depth", z, z0, 0))


@test("C05", "far to near order", 500)
class _:
    def gen(rng, i):
        nt = int(rng.choice([3, 5, 8]))
        s = gen.scene(rng, nt=nt, H=10, W=10, textured=False, shared=False, perspective_correct=bool(i % 2))
        s.ij = rng.uniform(0, 10, s.ij.shape)
        s.edgeflags[:] = True
        # constant depth per triangle with overlapping antialiasing zones
        s.depths = np.repeat(rng.permutation(nt) + 1., 3) * rng.choice([1., .1, 100.])
        return dict(s=orient(s), sigma=4.)

    run = None


_t = __import__("sys").modules[__name__]
from .core import TESTS  # noqa: E402

_aa_run = [x for x in TESTS["C05"] if x[0] == "antialiased image"][0][2]
TESTS["C05"] = [(n, g, r or _aa_run, q) for n, g, r, q in TESTS["C05"]]


@test("C06", "antialiased error", 2500)
class _:
    def gen(rng, i):
        s = aa_gen(rng, i)
        if i % 3 == 0:
            s.ij = rng.uniform(-1, 1 + max(s.height, s.width), s.ij.shape)
            orient(s)
        return dict(s=s, sigma=float(rng.choice([0, .7, 1, 2.3, 4])), obs=rng.rand(s.height, s.width, s.nb_colors))

    def run(c):
        s, sigma, obs = c["s"], c["sigma"], c["obs"]
        im, z, e = real.scene2d(s).render_error(obs.copy(), sigma)
        r = raster.forward(s, sigma, obs)
        r0 = raster.forward(s, 0.)
        ok, ok0 = ~r["amb"], ~r0["amb"]
        return first(diff("image", np.where(ok0[..., None], im, 0), np.where(ok0[..., None], r0["image"], 0), 1e-5),
                     diff("depth buffer", np.where(ok0, z, 0), np.where(ok0, r0["z"], 0), 1e-6),
                     diff("error", np.where(ok, e, 0), np.where(ok, r["err"], 0), 1e-5))


# ------------------------------------------------------------------ C07 .. C09
def grad_gen(rng, i, sigma, err=False, **kw):
    s = gen.scene(rng, mode=rng.choice(["generic", "generic", "grid"]), perspective_correct=False, H=int(rng.choice([2, 5, 9])), W=int(rng.choice([2, 5, 9])),
                  nt=int(rng.choice([1, 2, 4])), distinct_uv=bool(rng.rand() < .6), shared=bool(rng.rand() < .6), **kw)
    if rng.rand() < .3:
        s.edgeflags[:] = True
    if rng.rand() < .3:
        th, tw = int(rng.randint(1, 4)), int(rng.randint(1, 4))
        s.texture = rng.rand(th, tw, s.nb_colors)
    if rng.rand() < .5:
        s.ij = rng.uniform(-1, 1 + max(s.height, s.width), s.ij.shape)
        orient(s)
    w = rng.randn(s.height, s.width) if err else rng.randn(s.height, s.width, s.nb_colors)
    c = dict(s=s, sigma=float(sigma), w=w)
    if err:
        c["obs"] = rng.rand(s.height, s.width, s.nb_colors)
    return c


def grad_run(c, kf1=False):
    s, sigma, obs = c["s"], c["sigma"], c.get("obs")
    r = raster.forward(s, sigma, obs, grad=True)
    w = c["w"].copy()
    w[r["amb"]] = 0
    g = raster.gradients(s, sigma, w, obs)
    s2 = real.scene2d(s)
    if obs is not None:
        s2.render_error(obs.copy(), sigma)
        s2.render_error_backward(w.copy())
    else:
        s2.render(sigma)
        s2.render_backward(w.copy())
    gr = real.grads(s2)
    bad = [diff("gradient of " + k, gr[k], g[k], 2e-5) for k in raster.GRAD_FIELDS]
    if any(bad) and obs is not None and sigma > 0:
        # known finding KF1: the constant part of the colour of untextured edges is not differentiated
        g = raster.gradients(s, sigma, w, obs, kf1=True)
        bad = [diff("gradient of " + k, gr[k], g[k], 2e-5) for k in raster.GRAD_FIELDS]
    return first(*bad)


def _grad(pid, name, sig, quota, err=False, **kw):
    @test(pid, name, quota)
    class _:
        def gen(rng, i):
            return grad_gen(rng, i, rng.choice(sig), err, **kw)
        run = grad_run


_grad("C07", "interpolated triangles", [0.], 250, textured=False)
_grad("C07", "textured triangles", [0.], 250, textured=True)
_grad("C07", "mixed, with a silhouette width but no flag", [0., 1.], 120, edgeflags=None)
_grad("C08", "antialiased interpolated edges", [.7, 1., 2.3], 250, textured=False)
_grad("C08", "antialiased textured edges", [.7, 1., 2.3], 220, textured=True)
_grad("C08", "mixed scenes", [1., 2.3, 4.], 120)
_grad("C09", "error mode, interpolated", [0., 1., 2.3], 220, True, textured=False)
_grad("C09", "error mode, textured", [0., 1., 2.3], 220, True, textured=True)
_grad("C09", "error mode, mixed", [.7, 2.3], 100, True)
for _i, _x in enumerate(TESTS["C07"]):
    if _x[0].startswith("mixed"):
        def _g(rng, i):
            c = grad_gen(rng, i, rng.choice([0., 1.]))
            if c["sigma"] > 0:
                c["s"].edgeflags[:] = False
            return c
        TESTS["C07"][_i] = (_x[0], _g, _x[2], _x[3])


@finding("C27", "KF1: the colour gradient of untextured silhouette edges is incomplete in rasterize_edge_interpolated_error_B")
@finding("C09", "KF1: the colour gradient of untextured silhouette edges is incomplete in rasterize_edge_interpolated_error_B")
def _():
    rng = np.random.RandomState(0)
    s = base(edgeflags=np.ones((1, 3), bool), colors=rng.rand(3, 1))
    obs = rng.rand(9, 9, 1)
    r = raster.forward(s, 2.3, obs, grad=True)
    w = rng.rand(9, 9)
    w[r["amb"]] = 0
    g = raster.gradients(s, 2.3, w, obs)
    s2 = real.scene2d(s)
    s2.render_error(obs, 2.3)
    s2.render_error_backward(w)
    return not close(s2.colors_b, g["colors"], 1e-4)


def _tie():
    s = base(ij=np.vstack([base().ij] * 2), faces=np.arange(6).reshape(2, 3).astype(np.uint32), faces_uv=np.arange(6).reshape(2, 3).astype(np.uint32),
             uv=np.zeros((6, 2)), depths=np.ones(6), colors=np.repeat([[1.], [2.]], 3, axis=0), shade=np.ones(6), textured=np.zeros(2, bool),
             shaded=np.zeros(2, bool), edgeflags=np.zeros((2, 3), bool))
    s2 = real.scene2d(s)
    im, _ = s2.render(0)
    s2.render_backward(np.ones((9, 9, 1)))
    return abs(im.max() - 1) < 1e-9 and s2.colors_b[3:].sum() > 0


finding("C07", "KF3: with exactly equal depths the image shows the first triangle and the gradient is given to the last")(_tie)
finding("C08", "KF3: with exactly equal depths the image shows the first triangle and the gradient is given to the last")(_tie)


def _big():
    s = base(height=1, width=40000, ij=np.array([[-1., -5.], [80000., -5.], [-1., 5.]]))
    return not np.isfinite(real.render(orient(s))[1][0, 39000])


finding("C01", "KF4: pixels beyond column or row 32766 are not drawn")(_big)
finding("C02", "KF4: pixels beyond column or row 32766 are not drawn")(_big)


# ------------------------------------------------------------------ C10
@test("C10", "memory accesses for extreme values", 700)
class _:
    def gen(rng, i):
        s = gen.scene(rng, nt=int(rng.choice([1, 3, 6])), mode=rng.choice(["generic", "grid"]), backface_culling=True)
        s.texture = rng.rand(int(rng.randint(1, 5)), int(rng.randint(1, 5)), s.nb_colors)
        big = float(rng.choice([1, 1e2, 1e4, 4e4, 1e6, 1e9, 1e12, 1e300]))
        if rng.rand() < .7:
            s.ij = s.ij * np.where(rng.rand(*s.ij.shape) < .5, big, 1)
        if rng.rand() < .5:
            s.uv = s.uv * np.where(rng.rand(*s.uv.shape) < .5, big, 1)
        if rng.rand() < .4:
            s.uv = np.round(s.uv)
        for a in (s.ij, s.uv, s.depths, s.shade):
            if rng.rand() < .2:
                a.flat[rng.randint(a.size)] = rng.choice([np.nan, np.inf, -np.inf, 0, -1])
        err = bool(rng.rand() < .4)
        s.perspective_correct = bool(rng.rand() < .4)
        return dict(s=s, sigma=float(rng.choice([0, .3, 1, 5, 50, 1e5])), err=err)

    def run(c):
        s = c["s"]
        s2 = real.scene2d(s)
        rng = np.random.RandomState(0)
        if c["err"]:
            s2.render_error(rng.rand(s.height, s.width, s.nb_colors), c["sigma"])
            s2.perspective_correct = False
            s2.render_error(rng.rand(s.height, s.width, s.nb_colors), c["sigma"])
            s2.render_error_backward(rng.rand(s.height, s.width))
        else:
            s2.render(c["sigma"])
            s2.perspective_correct = False
            s2.render(c["sigma"])
            s2.render_backward(rng.rand(s.height, s.width, s.nb_colors))


BAD = ("faces_range", "faces_uv_range", "faces_dtype", "faces_shape", "faces_uv_shape", "faces_uv_negative", "ij_rows", "ij_cols", "depths_rows", "shade_rows", "colors_rows",
       "colors_cols", "uv_cols", "edgeflags_rows", "edgeflags_cols", "textured_rows", "shaded_rows", "bg_both", "bg_none", "bg_image_shape", "bg_color_shape", "texture_channels",
       "texture_missing", "texture_ndim", "height", "width", "z_shape", "err_shape", "obs_shape", "err_none", "obs_none",
       "b_ij", "b_uv", "b_shade", "b_colors", "b_texture", "b_image_b", "b_image_b_none", "b_err_b", "b_err_b_none", "b_z", "b_obs", "bg_color_rank", "b_colors_rank", "image_strided", "z_type", "uv_index_wraps")


def spoil(s2, a, kind, rng):
    """Break one consistency condition of a valid scene; a: buffers."""
    H, W, C = s2.height, s2.width, s2.nb_colors
    nv, nt = len(s2.depths), len(s2.faces)
    k = rng.randint(nt)

    def cut(x, ax=0):
        return np.ascontiguousarray(np.take(x, range(x.shape[ax] - 1), axis=ax))
    if kind == "faces_range":
        s2.faces[k, rng.randint(3)] = nv + rng.randint(3)
    elif kind == "faces_uv_range":
        s2.faces_uv[k, rng.randint(3)] = len(s2.uv) + rng.randint(3)
    elif kind == "faces_uv_negative":
        s2.faces_uv = s2.faces_uv.astype(np.int64)
        s2.faces_uv[k, rng.randint(3)] = -1 - rng.randint(5)
    elif kind == "faces_dtype":
        s2.faces = s2.faces.astype(np.int64)
    elif kind == "faces_shape":
        s2.faces = cut(s2.faces, 1)
    elif kind == "faces_uv_shape":
        s2.faces_uv = cut(s2.faces_uv, 1) if rng.rand() < .5 else cut(s2.faces_uv)
    elif kind == "ij_rows":
        s2.ij = cut(s2.ij)
        s2.ij_b = cut(s2.ij_b)
    elif kind == "ij_cols":
        s2.ij = cut(s2.ij, 1)
        s2.ij_b = cut(s2.ij_b, 1)
    elif kind == "depths_rows":
        s2.depths = np.ones((nv, 2)) if rng.rand() < .5 else np.ones(nv + 1)
    elif kind == "shade_rows":
        s2.shade = cut(s2.shade)
        s2.shade_b = cut(s2.shade_b)
    elif kind == "colors_rows":
        s2.colors = cut(s2.colors)
        s2.colors_b = cut(s2.colors_b)
    elif kind == "colors_cols":
        s2.colors = np.ones((nv, C + 1 if C == 1 or rng.rand() < .5 else C - 1))
        s2.colors_b = np.zeros_like(s2.colors)
    elif kind == "uv_cols":
        s2.uv = cut(s2.uv, 1)
        s2.uv_b = cut(s2.uv_b, 1)
    elif kind == "edgeflags_rows":
        s2.edgeflags = cut(s2.edgeflags)
    elif kind == "edgeflags_cols":
        s2.edgeflags = cut(s2.edgeflags, 1)
    elif kind == "textured_rows":
        s2.textured = cut(s2.textured)
    elif kind == "shaded_rows":
        s2.shaded = cut(s2.shaded)
    elif kind == "bg_both":
        s2.background_image, s2.background_color = np.zeros((H, W, C)), np.zeros(C)
    elif kind == "bg_none":
        s2.background_image = s2.background_color = None
    elif kind == "bg_image_shape":
        d = [H, W, C]
        d[rng.randint(3)] += 1
        s2.background_image, s2.background_color = np.zeros(d), None
    elif kind == "bg_color_shape":
        s2.background_image, s2.background_color = None, np.zeros(C + (1 if rng.rand() < .5 else -1))
    elif kind == "bg_color_rank":
        s2.background_image, s2.background_color = None, np.zeros((C, 0))
    elif kind == "b_colors_rank":
        s2.colors_b = np.zeros((nv, C, 0))
    elif kind == "image_strided":
        a["image"] = np.full((H, W, 2 * C), 7.)[:, :, ::2]
    elif kind == "z_type":
        a["z"] = a["z"].astype(np.float32)
    elif kind == "uv_index_wraps":
        s2.faces_uv = s2.faces_uv.astype(np.int64) - (1 << 32)
    elif kind == "texture_channels":
        s2.texture = np.ones((2, 3, C + 1))
        s2.texture_b = np.zeros_like(s2.texture)
    elif kind == "texture_missing":
        s2.texture = np.zeros((0, 0))
        s2.texture_b = np.zeros((0, 0))
    elif kind == "texture_ndim":
        s2.texture = np.ones((2, 3))
        s2.texture_b = np.zeros((2, 3))
    elif kind == "height":
        s2.height += 1
    elif kind == "width":
        s2.width += 1
    elif kind in ("z_shape", "b_z"):
        a["z"] = cut(a["z"], rng.randint(2))
    elif kind == "err_shape":
        a["err"] = cut(a["err"], rng.randint(2))
    elif kind in ("obs_shape", "b_obs"):
        a["obs"] = cut(a["obs"], rng.randint(3))
    elif kind == "err_none":
        a["err"] = None
    elif kind == "obs_none":
        a["obs"] = None
    elif kind == "b_ij":
        s2.ij_b = cut(s2.ij_b, rng.randint(2))
    elif kind == "b_uv":
        s2.uv_b = cut(s2.uv_b, rng.randint(2))
    elif kind == "b_shade":
        s2.shade_b = cut(s2.shade_b)
    elif kind == "b_colors":
        s2.colors_b = cut(s2.colors_b, rng.randint(2))
    elif kind == "b_texture":
        s2.texture_b = cut(s2.texture_b, rng.randint(3))
    elif kind == "b_image_b":
        a["image_b"] = cut(a["image_b"], rng.randint(3))
    elif kind == "b_image_b_none":
        a["image_b"] = None
    elif kind == "b_err_b":
        a["err_b"] = cut(a["err_b"], rng.randint(2))
    elif kind == "b_err_b_none":
        a["err_b"] = None


@test("C10", "inconsistent scenes are rejected before anything is written", 420)
class _:
    def gen(rng, i):
        s = gen.scene(rng, nt=int(rng.randint(2, 4)), H=int(rng.randint(2, 5)), W=int(rng.randint(2, 5)), textured=True, perspective_correct=False, distinct_uv=True)
        kind = BAD[i % len(BAD)]
        return dict(s=s, kind=kind, seed=int(rng.randint(1 << 30)), via=["renderScene", "cython"][(i // len(BAD)) % 2])

    def run(c):
        from deodr import differentiable_renderer as dr
        s, kind = c["s"], c["kind"]
        rng = np.random.RandomState(c["seed"])
        s2 = real.scene2d(s)
        H, W, C = s.height, s.width, s.nb_colors
        em = kind in ("err_shape", "obs_shape", "err_none", "obs_none", "b_err_b", "b_err_b_none", "b_obs") or rng.rand() < .3
        if kind.startswith("b_image"):
            em = False
        a = dict(image=np.full((H, W, C), 7.), z=np.full((H, W), 7.), image_b=rng.rand(H, W, C), obs=rng.rand(H, W, C), err=np.full((H, W), 7.), err_b=rng.rand(H, W))
        spoil(s2, a, kind, rng)
        ref = {k: None if v is None else v.copy() for k, v in a.items()}
        back = kind.startswith("b_") or rng.rand() < .4 and kind not in ("err_none", "obs_none")
        cyt = c["via"] == "cython"
        try:
            if not back:
                f = dr.differentiable_renderer_cython.renderSceneCpp if cyt else dr.renderScene
                f(s2, 1., a["image"], a["z"], em, a["obs"] if em else None, a["err"] if em else None)
            else:
                f = dr.differentiable_renderer_cython.renderSceneBCpp if cyt else dr.renderSceneB
                f(s2, 1., a["image"], a["z"], None if em else a["image_b"], em, a["obs"] if em else None, a["err"] if em else None, a["err_b"] if em else None)
        except BaseException:
            for k, v in a.items():
                if v is not None and not np.array_equal(v, ref[k]):
                    return f"{kind}: {k} was written before the exception"
            return None
        return f"an inconsistent scene ({kind}) was accepted by {'renderSceneBCpp' if back and cyt else 'renderSceneB' if back else 'renderSceneCpp' if cyt else 'renderScene'}"


# ------------------------------------------------------------------ C11
SCENE_IN = ("faces", "faces_uv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags", "texture", "background_image", "background_color")


@test("C11", "inputs unchanged, repeatability and accumulation", 350)
class _:
    def gen(rng, i):
        c = grad_gen(rng, i, rng.choice([0., 1., 2.3]), err=bool(i % 2))
        if i % 3 == 0:
            c["s"].backface_culling = True
        c["w2"] = rng.randn(*c["w"].shape)
        return c

    def run(c):
        s, sigma, obs, w, w2 = c["s"], c["sigma"], c.get("obs"), c["w"], c["w2"]
        s2 = real.scene2d(s)
        ref = {k: getattr(s, k) for k in SCENE_IN}

        def unchanged(when):
            for k, v in ref.items():
                x = getattr(s2, k)
                if (v is None) != (x is None) or v is not None and not np.array_equal(v, x):
                    return f"{k} modified by {when}"
            if obs is not None and not np.array_equal(o, obs):
                return f"observation modified by {when}"
        o = None if obs is None else obs.copy()

        def fwd():
            return s2.render_error(o, sigma) if obs is not None else s2.render(sigma)

        def bwd(x):
            s2.render_error_backward(x) if obs is not None else s2.render_backward(x)
        bufs = fwd()
        m = unchanged("the rendering")
        if m:
            return m
        saved = [b.copy() for b in bufs]
        again = fwd()
        for a, b, n in zip(again, saved, ("image", "depth buffer", "error")):
            if not np.array_equal(a, b, equal_nan=True):
                return f"{n} differs when rendering twice"
        x = w.copy()
        bwd(x)
        if not np.array_equal(x, w):
            return "gradient given by the caller modified"
        for a, b, n in zip(again, saved, ("image", "depth buffer", "error")):
            if not np.array_equal(a, b, equal_nan=True):
                return f"{n} modified by the backward pass"
        m = unchanged("the backward pass")
        if m:
            return m
        g1 = {k: v.copy() for k, v in real.grads(s2).items()}
        s2.clear_gradients()
        for k, v in real.grads(s2).items():
            if np.any(v != 0):
                return f"gradient of {k} not cleared"
        bwd(w.copy())
        m = first(*[diff("repeated gradient of " + k, v, g1[k], 1e-9) for k, v in real.grads(s2).items()])
        if m:
            return m
        s2.clear_gradients()
        bwd(w2.copy())
        g2 = {k: v.copy() for k, v in real.grads(s2).items()}
        bwd(w.copy())
        return first(*[diff("accumulated gradient of " + k, v, g1[k] + g2[k], 1e-7) for k, v in real.grads(s2).items()])


# ------------------------------------------------------------------ C27
@test("C27", "render_compare_and_backward", 250)
class _:
    def gen(rng, i):
        c = grad_gen(rng, i, rng.choice([0., 1., 2.3]), err=True)
        H, W = c["s"].height, c["s"].width
        c.update(mode=bool(i % 2), mask=[None, rng.rand(H, W), (rng.rand(H, W) < .5).astype(float)][i % 3], clear=bool(rng.rand() < .6), copies=bool(rng.rand() < .7))
        return c

    def run(c):
        s, sigma, obs, mask = c["s"], c["sigma"], c["obs"], c["mask"]
        em = c["mode"]
        r = raster.forward(s, sigma, obs if em else None, grad=True)
        M = np.ones((s.height, s.width)) if mask is None else mask.copy()
        # pixels whose decision is ambiguous are masked out
        M[r["amb"]] = 0
        ok = ~r["amb"]
        s2 = real.scene2d(s)
        g0 = {}
        rng = np.random.RandomState(0)
        for k in raster.GRAD_FIELDS:
            a = getattr(s2, k + "_b")
            a[:] = rng.rand(*a.shape)
            g0[k] = a * (0 if c["clear"] else 1)
        mm, oo = M.copy(), obs.copy()
        passed = None if mask is None and not r["amb"].any() else mm
        im, z, e, tot = s2.render_compare_and_backward(oo, sigma=sigma, antialiase_error=em, mask=passed, clear_gradients=c["clear"], make_copies=c["copies"])
        if em:
            E = r["err"] * M
            w, o = M, obs
        else:
            E = ((r["image"] - obs) * M[..., None]) ** 2
            w, o = 2 * (r["image"] - obs) * M[..., None] ** 2, None
        bad = [diff("mask", mm, M, 0), diff("observation", oo, obs, 0), diff("error", e, np.where(ok if em else ok[..., None], E, 0), 1e-5),
               None if abs(tot - np.sum(e)) <= 1e-9 * (1 + abs(tot)) else f"total {tot} is not the sum of the errors {np.sum(e)}",
               diff("depth", np.where(ok, z, 0), np.where(ok, r["z"], 0), 1e-6)]
        if c["copies"] or em:
            bad.append(diff("image", np.where(ok[..., None], im, 0), np.where(ok[..., None], r["image"], 0), 1e-5))
        g = raster.gradients(s, sigma, w, o)
        gb = [diff("gradient of " + k, getattr(s2, k + "_b"), g[k] + g0[k], 2e-5) for k in g]
        if any(gb) and em and sigma > 0:
            g = raster.gradients(s, sigma, w, o, kf1=True)
            gb = [diff("gradient of " + k, getattr(s2, k + "_b"), g[k] + g0[k], 2e-5) for k in g]
        return first(*bad, *gb)


@test("C27", "unsupported gradients are refused", 20)
class _:
    def gen(rng, i):
        c = grad_gen(rng, i, 1., err=True)
        c.update(mode=bool(i % 2), what=["perspective_correct", "backface_culling"][(i // 2) % 2])
        return c

    def run(c):
        s2 = real.scene2d(c["s"])
        if c["what"] == "perspective_correct":
            s2.perspective_correct = True
        else:
            s2.backface_culling = False
        try:
            s2.render_compare_and_backward(c["obs"], sigma=1., antialiase_error=c["mode"])
        except BaseException:
            return None
        return f"gradient computed although {c['what']} makes it invalid"
