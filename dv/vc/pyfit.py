"""C24: deodr/mesh_fitter.py.

The fitters are executed on the real Scene3D class with its rendering methods replaced by their
contracts (C21, C22): an image is a function of the mesh's vertices, its colours and the lights,
the backward pass applies the adjoint of its derivative.  The rigidity energy is used by its
contract (C19), the quaternion functions of tools.py are executed as they are."""
import types
from .pyver import *
from .pyload import load
from .pyscene import V, F, H, W, freeze, same

PATH = "deodr/mesh_fitter.py"
N = B("NF")   # number of frames


class Cam:
    def __init__(self, extrinsic, intrinsic, height, width, distortion=None):
        self.extrinsic, self.intrinsic, self.height, self.width, self.distortion = extrinsic, intrinsic, height, width, distortion


def short(a):
    """The same array; its elements are abbreviations."""
    return freeze(nps.let(a, 1, True))


def shortened(f):
    """The function, with abbreviated results."""
    def g(*a, **k):
        r = f(*a, **k)
        return tuple(short(x) for x in r) if isinstance(r, tuple) else short(r)
    return g


def scene_class(p, base, lights=lambda s: (s.light_directional, s.light_ambient)):
    class Scene(base):
        """Contracts of render, render_depth and their backward passes."""

        def _image(self, kind, channels, camera, colors, options):
            ld, la = (None, None) if kind == "depth" else lights(self)
            st = dict(kind=kind, v=freeze(self.mesh.vertices), col=None if colors is None else freeze(colors), ld=None if ld is None else freeze(ld),
                      la=None if kind == "depth" else freeze(asA(la)), camera=camera, options=options, bgc=self.background_color, bgi=self.background_image)
            st["k"] = len(p.states)
            st["pending"] = None
            p.states.append(st)
            self.current_ = st
            self.store_backward_current = {}
            st["image"] = symbol(f"img{st['k']}", camera.height, camera.width, channels)
            return symbol(f"img{st['k']}", camera.height, camera.width, channels)

        def render(self, camera, return_z_buffer=False, backface_culling=True):
            p.true("the image is rendered with face culling and without z buffer", return_z_buffer is False and backface_culling is True)
            return self._image("color", 3, camera, self.mesh.vertices_colors, None)

        def render_depth(self, camera, depth_scale=1, backface_culling=True):
            p.true("the depth is rendered with face culling", backface_culling is True)
            return self._image("depth", 1, camera, None, asA(depth_scale))

        def clear_gradients(self):
            self.current_["pending"] = None

        def _adjoint(self, st, b):
            b = asA(b)
            for d, e in zip(b.dims, st["image"].dims):
                if not nps.same_dim(d, e):
                    raise ValueError("shape of the gradient of the image")
            b = freeze(b)
            st["pending"] = b if st["pending"] is None else st["pending"] + b
            acc = st["pending"].reader()
            di, dj, dc = st["image"].dims
            k = st["k"]

            def back(part, dims):
                return new(dims, lambda t: nps.sum_dim(di, lambda i: nps.sum_dim(dj, lambda j: nps.sum_dim(dc, lambda c: num(acc((i, j, c))) * app(f"{part}{k}", i, j, c, *t)))))
            return back

        def render_backward(self, image_b):
            st = self.current_
            assert st["kind"] == "color"
            back = self._adjoint(st, image_b)
            self.mesh._vertices_b = short(back("dv", (V, 3)))
            self.mesh.vertices_colors_b = short(back("dcol", (V, 3)))
            self.light_directional_b = short(back("dld", (3,)))
            self.light_ambient_b = short(back("dla", ()))

        def render_depth_backward(self, depth_b):
            st = self.current_
            assert st["kind"] == "depth"
            self.mesh._vertices_b = short(self._adjoint(st, depth_b)("dv", (V, 3)))
    return Scene


def contracts(p, base):
    """The mesh without its adjacencies; contracts of the rigidity energy and of scipy's rotations."""
    class Mesh(base):
        def __init__(self, faces, vertices, **k):
            k["compute_adjacencies"] = False
            super().__init__(faces, vertices, **k)

    class Rigid:
        def __init__(self, mesh, vertices, cregu):
            self.mesh, self.ref, self.cregu = mesh, freeze(vertices), cregu
            p.rigid.append(self)

        def evaluate(self, vertices):
            k = len(p.evals)
            p.evals.append(freeze(vertices))
            return scalar(var(f"Erigid{k}")), symbol(f"Grigid{k}", V, 3), None

    class Rotation:
        def __init__(self, seq, e):
            self.args = seq, e

        @staticmethod
        def from_euler(seq, angles, degrees=False):
            p.true("angles in radians", degrees is False)
            return Rotation(seq, asA(angles))

        def as_quat(self):
            p.quats.append((self.args[0], freeze(self.args[1])))
            return symbol(f"quat{len(p.quats) - 1}", *(self.args[1].dims[:-1] + (4,)))
    scipy = types.SimpleNamespace(sparse=nps.sparse, spatial=types.SimpleNamespace(transform=types.SimpleNamespace(Rotation=Rotation)))
    return Mesh, Rigid, scipy


def setup(p, rewrite=None, **names):
    for d in (H, W, V, F) + ((N,) if isinstance(N, B) else ()):
        p.c.assume(cmp("<", 0, d.base.size))
    m, dr, t = p.get("mesh"), p.get("dr"), p.get("tools")
    nps.AXIOMS["faces"] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), V.base.size))]
    p.states, p.rigid, p.quats, p.evals = [], [], [], []

    Mesh, Rigid, scipy = contracts(p, m.ColoredTriMesh)

    def refuse(*a, **k):
        raise Unsupported("finite differences")
    return load(PATH, rewrite=rewrite, Camera=Cam, ColoredTriMesh=Mesh, LaplacianRigidEnergy=Rigid, Scene3D=scene_class(p, dr.Scene3D), check_jacobian_finite_differences=refuse,
                **{f: shortened(getattr(t, f)) for f in ('normalize', 'normalize_backward', 'qrot', 'qrot_backward')}, scipy=scipy, **names)


def image_rule(p, name, idx):
    """Derivative of the pixels of the images, by the contract of the renderer, through what
    the fitter gave to the scene."""
    return through_images(p, wrt(name, idx))


def through_images(p, base):

    def rule(a):
        if a.kind == "fn" and a.name.startswith("img") and a.name[3:].isdigit():
            st = p.states[int(a.name[3:])]
            k = st["k"]
            t = a.args
            r = nps.sum_dim(V, lambda n: sum((app(f"dv{k}", *t, n, d) * ddx(num(st["v"].at(n, d)), base) for d in range(3)), P.of(0)))
            if st["col"] is not None:
                r = r + nps.sum_dim(V, lambda n: sum((app(f"dcol{k}", *t, n, d) * ddx(num(st["col"].at(n, d)), base) for d in range(3)), P.of(0)))
            if st["ld"] is not None:
                r = r + sum((app(f"dld{k}", *t, d) * ddx(num(st["ld"].at(d)), base) for d in range(3)), P.of(0))
            if st["la"] is not None:
                r = r + app(f"dla{k}", *t) * ddx(num(st["la"].item()), base)
            return r
        if a.kind == "var" and a.name.startswith("Erigid") and a.name[6:].isdigit():
            # the rigidity energy of the PyTorch interface, and its gradient by the contract of C25
            x, k = p.evals[int(a.name[6:])], a.name[6:]
            return nps.sum_dim(V, lambda n: sum((app("Grigid" + k, n, d) * ddx(num(x.at(n, d)), base) for d in range(3)), P.of(0)))
        return base(a)
    return rule


def gradient(p, name, loss, arr, got, base=None):
    """got is the derivative of loss with respect to the symbols arr (plus base)."""
    got = asA(got)
    if len(got.dims) != len(arr.dims) or not all(nps.same_dim(x, y) for x, y in zip(got.dims, arr.dims)):
        p.rep.fail(f"{p.name}: {name}", f"shape {got.dims} instead of {arr.dims}")
        return
    for t in itertools.product(*[indices(d) for d in arr.dims]):
        (k, _), = num(arr.at(*t) if t else arr.item()).m.items()
        at = k[0][0]
        d = num(got.at(*t) if t else got.item()) - ddx(loss, image_rule(p, at.name, at.args if at.kind == "fn" else ()))
        if base is not None:
            d = d - num(asA(base).at(*t) if t else asA(base).item())
        if not p.zero(name, d):
            return


def rows(R, x, t):
    """R x + t for every vertex."""
    return new((V, 3), lambda i: sum((R[i[1]][k] * num(x.at(i[0], k)) for k in range(3)), P.of(0)) + num(t.at(i[1])) if isinstance(i[1], int) else None)


def rotation(q):
    from .pytools import quat_rows
    n = sqrt(sum((num(q.at(k)) ** 2 for k in range(4)), P.of(0)))
    return quat_rows([num(q.at(k)) * n.inv() for k in range(4)])


def centre(x):
    return freeze(x - nps.np_mean(x, axis=0)[None, :])


def total(a):
    return num(nps.np_sum(a).item())


def fitter(p, m, kind, lights=True, color=True):
    x, f, e, t = symbol("x0", V, 3), symbol("faces", F, 3, dtype="i"), symbol("euler", 3), symbol("t0", 3)
    a = dict(vertices=x, faces=f, euler=e, translation=t)
    w = scalar(var("cregu"))
    if kind == "depth":
        o = m.MeshDepthFitter(x, f, e, t, cregu=w)
    else:
        if kind == "multi":
            a.update(euler=symbol("euler", N, 3), translation=symbol("t0", N, 3))
        a.update(color=symbol("color0", 3), light=symbol("light0", 3))
        kw = dict(vertices=x, faces=f, euler_init=a["euler"], translation_init=a["translation"], default_color=a["color"], default_light_directional=a["light"], default_light_ambient=scalar(var("amb0")), cregu=w,
                  update_lights=lights, update_color=color)
        if kind == "multi":
            kw["cdata"] = scalar(var("cdata"))
            # the centre of the cameras is only a default view
            o = m.MeshRGBFitterWithPoseMultiFrame(**kw)
        else:
            o = m.MeshRGBFitterWithPose(**kw)
    p.true("one rigidity energy", len(p.rigid) == 1)
    p.eq("the rigidity energy is relative to the initial vertices", p.rigid[0].ref, x)
    p.eq("the rigidity energy has the given weight", asA(p.rigid[0].cregu), w)
    p.true("one mesh", o.scene.mesh is o.mesh and p.rigid[0].mesh is o.mesh)
    p.eq("faces of the mesh", o.mesh.faces, f)
    return o, a


def initial(p, o, a, kind, when):
    """The state is the initial one."""
    p.eq(when + ": vertices", o.vertices, symbol("x0", V, 3))
    p.true(when + ": initial rotation", len(p.quats) == 1 and p.quats[0][0] == "zyx")
    lead = (N,) if kind == "multi" else ()
    p.eq(when + ": initial rotation", p.quats[0][1], symbol("euler", *lead, 3))
    p.eq(when + ": rotation", o.transform_quaternion, symbol("quat0", *lead, 4))
    p.eq(when + ": translation", o.transform_translation, symbol("t0", *lead, 3))
    p.eq(when + ": speed of the vertices", asA(o.speed_vertices) + nps.np_zeros((V, 3)), nps.np_zeros((V, 3)))
    p.eq(when + ": speed of the rotation", asA(o.speed_quaternion) + nps.np_zeros(lead + (4,)), nps.np_zeros(lead + (4,)))
    p.eq(when + ": speed of the translation", asA(o.speed_translation) + nps.np_zeros(lead + (3,)), nps.np_zeros(lead + (3,)))
    if kind != "depth":
        p.eq(when + ": colour", o.mesh_color, symbol("color0", 3))
        p.eq(when + ": directional light", o.light_directional, symbol("light0", 3))
        p.eq(when + ": ambient light", asA(o.light_ambient), scalar(var("amb0")))
        p.eq(when + ": speed of the colour", o.speed_mesh_color, nps.np_zeros((3,)))
        p.eq(when + ": speed of the light", o.speed_light_directional, nps.np_zeros((3,)))
        p.eq(when + ": speed of the ambient light", asA(o.speed_light_ambient), asA(0))


def anystate(p, o, kind):
    """An arbitrary state of the fitter, after any history."""
    lead = (N,) if kind == "multi" else ()
    s = dict(x=symbol("x", V, 3), q=symbol("q", *lead, 4), t=symbol("t", *lead, 3), sx=symbol("sx", V, 3), sq=symbol("sq", *lead, 4), st=symbol("st", *lead, 3))
    o.vertices, o.transform_quaternion, o.transform_translation = s["x"], s["q"], s["t"]
    o.speed_vertices, o.speed_quaternion, o.speed_translation = s["sx"], s["sq"], s["st"]
    for k in ("inertia", "damping"):
        setattr(o, k, scalar(var(k)))
    for k in ("step_factor_vertices", "step_max_vertices", "step_factor_quaternion", "step_max_quaternion", "step_factor_translation", "step_max_translation"):
        p.true(f"{k} has a default", hasattr(o, k))
        setattr(o, k, scalar(var(k)))
    if kind != "depth":
        s.update(mc=symbol("mc", 3), ld=symbol("ld", 3), la=scalar(var("la")), smc=symbol("smc", 3), sld=symbol("sld", 3), sla=scalar(var("sla")))
        o.mesh_color, o.light_directional, o.light_ambient = s["mc"], s["ld"], s["la"]
        o.speed_mesh_color, o.speed_light_directional, o.speed_light_ambient = s["smc"], s["sld"], s["sla"]
    return s


def clamp(x, t):
    return nps.np.minimum(nps.np.maximum(x, -t), t)


def updates(p, o, s, kind, grads, start, lights=True, color=True):
    """Every parameter moves by its momentum along minus its gradient; start: vertices the step starts from."""
    keep, i = 1 - asA(o.damping), asA(o.inertia)
    mom = lambda sp, st: keep * (sp * i + (1 - i) * st)
    sx = mom(s["sx"], clamp(-grads["x"] * o.step_factor_vertices, o.step_max_vertices))
    p.eq("vertices follow minus their gradient", o.vertices, start + sx)
    sq = mom(s["sq"], clamp(-grads["q"] * o.step_factor_quaternion, o.step_max_quaternion))
    q1 = s["q"] + sq
    n = nps.np_sqrt(nps.np_sum(q1 * q1))
    p.eq("the rotation follows minus its gradient", o.transform_quaternion * n, q1)
    st = mom(s["st"], clamp(-grads["t"] * o.step_factor_translation, o.step_max_translation))
    p.eq("the translation follows minus its gradient", o.transform_translation, s["t"] + st)
    if kind == "depth":
        return
    for on, name, speed, cur, attr, k in ((lights, "directional light", "sld", "ld", "light_directional", "0.0001"), (lights, "ambient light", "sla", "la", "light_ambient", "0.0001"), (color, "colour", "smc", "mc", "mesh_color", "0.00001")):
        if on:
            p.eq(f"the {name} follows minus its gradient", getattr(o, attr), s[cur] + mom(s[speed], -grads[cur] * scalar(float(k))))
        else:
            p.eq(f"the {name} stays fixed", getattr(o, attr), s[cur])


def rendered(p, o, st, s, x, q, t, kind):
    p.eq("the vertices are rotated and translated", st["v"], rows(rotation(q), x, t))
    p.true("the camera of the fitter", st["camera"] is o.camera)
    if kind != "depth":
        p.eq("the mesh has the colour of the fitter", st["col"], new((V, 3), lambda i: num(s["mc"].at(i[1]))))
        p.eq("the directional light is the one of the fitter", st["ld"], s["ld"])
        p.eq("the ambient light is the one of the fitter", st["la"], asA(s["la"]))


def v_depth(rep):
    p = Py(rep, "MeshDepthFitter")

    def run(p):
        m = setup(p)
        o, a = fitter(p, m, "depth")
        initial(p, o, a, "depth", "after construction")
        T = symbol("T", H, W)
        mx, sc = var("max_depth"), var("scale")
        p.c.assume(cmp("<", 0, mx))
        o.set_max_depth(scalar(mx))
        o.set_depth_scale(scalar(sc))
        o.set_image(T, focal=scalar(var("focal")))
        s = anystate(p, o, "depth")
        E, depth, diff = o.step()
        p.true("one rendering", len(p.states) == 1)
        st = p.states[0]
        x = centre(s["x"])
        rendered(p, o, st, s, x, s["q"], s["t"], "depth")
        p.eq("depth scale", st["options"], scalar(sc))
        p.eq("the background is the maximum depth", st["bgc"], asA([scalar(mx)]))
        img = st["image"]
        inside = lambda i: band(cmp("<=", 0, num(img.at(*i, 0))), cmp("<=", num(img.at(*i, 0)), mx))
        clip = new((H, W), lambda i: ind(inside(i)) * num(img.at(*i, 0)) + ind(cmp("<", mx, num(img.at(*i, 0)))) * mx)
        p.eq("the depth is clipped", depth, clip)
        p.eq("squared residual", diff, (clip - T) * (clip - T))
        p.true("one evaluation of the rigidity", len(p.evals) == 1)
        p.eq("rigidity of the current vertices", p.evals[0], x)
        L = total((clip - T) * (clip - T))
        p.eq("energy", asA(E), scalar(L + var("Erigid0")))
        gradient(p, "gradient of the vertices", L, s["x"], o._vertices_b)
        gradient(p, "gradient of the rotation", L, s["q"], o.transform_quaternion_b)
        gradient(p, "gradient of the translation", L, s["t"], o.transform_translation_b)
        updates(p, o, s, "depth", dict(x=o._vertices_b + symbol("Grigid0", V, 3), q=o.transform_quaternion_b, t=o.transform_translation_b), x)
        p.true("the image is not modified", T.buf.version == 0)
        o.reset()
        initial(p, o, a, "depth", "after reset")
        for k, v in a.items():
            p.true(f"{k} is not modified", v.buf.version == 0)
    p.run(run)
    p.use(PATH, *["MeshDepthFitter." + f for f in ("__init__", "set_mesh_transform_init", "reset", "set_max_depth", "set_depth_scale", "set_image", "render", "render_backward", "step")])


def v_rgb(rep, lights=True, color=True):
    p = Py(rep, f"MeshRGBFitterWithPose, lights {'updated' if lights else 'fixed'}, colour {'updated' if color else 'fixed'}")

    def run(p):
        m = setup(p)
        o, a = fitter(p, m, "rgb", lights, color)
        initial(p, o, a, "rgb", "after construction")
        T, bg = symbol("T", H, W, 3), symbol("bg", 3)
        o.set_background_color(bg)
        o.set_image(T, focal=scalar(var("focal")))
        s = anystate(p, o, "rgb")
        E, image, diff = o.step()
        p.true("one rendering", len(p.states) == 1)
        st = p.states[0]
        x = centre(s["x"])
        rendered(p, o, st, s, x, s["q"], s["t"], "rgb")
        p.eq("background", st["bgc"], bg)
        img = st["image"]
        p.eq("the image is the rendering", image, img)
        p.eq("squared residual", diff, nps.np_sum((img - T) * (img - T), axis=2))
        p.true("one evaluation of the rigidity", len(p.evals) == 1)
        p.eq("rigidity of the current vertices", p.evals[0], x)
        L = total((img - T) * (img - T))
        p.eq("energy", asA(E), scalar(L + var("Erigid0")))
        g = dict(q=o.transform_quaternion_b, t=o.transform_translation_b, mc=o.mesh_color_b, ld=o.light_directional_b, la=o.light_ambient_b)
        gradient(p, "gradient of the vertices", L, s["x"], o._vertices_b)
        for k, n in (("q", "rotation"), ("t", "translation"), ("mc", "colour"), ("ld", "directional light"), ("la", "ambient light")):
            gradient(p, "gradient of the " + n, L, s[k], g[k])
        updates(p, o, s, "rgb", dict(g, x=o._vertices_b + symbol("Grigid0", V, 3)), x, lights, color)
        p.true("the image is not modified", T.buf.version == 0)
        o.reset()
        initial(p, o, a, "rgb", "after reset")
        for k, v in a.items():
            p.true(f"{k} is not modified", v.buf.version == 0)
    p.run(run)
    p.use(PATH, *["MeshRGBFitterWithPose." + f for f in ("__init__", "set_mesh_transform_init", "reset", "set_background_color", "set_image", "render", "render_backward", "step")])


def v_frame(rep):
    """One frame among any number: the gradients of the frame are added to the previous ones."""
    p = Py(rep, "MeshRGBFitterWithPoseMultiFrame, one frame of any number")

    def run(p):
        m = setup(p)
        o, a = fitter(p, m, "multi")
        initial(p, o, a, "multi", "after construction")
        s = anystate(p, o, "multi")
        bg = symbol("bg", 3)
        o.set_background_color(bg)
        o.set_images([symbol("T", H, W, 3)], focal=scalar(var("focal")))
        f = var("frame", "I")
        p.c.assume(band(cmp("<=", 0, f), cmp("<", f, N.base.size)))
        old = dict(x=symbol("gx", V, 3), q=symbol("gq", N, 4), t=symbol("gt", N, 3), mc=symbol("gmc", 3), ld=symbol("gld", 3), la=scalar(var("gla")))
        o.clear_gradients()
        for k in GRADS:
            p.eq("gradients are cleared: " + k, asA(getattr(o, GRADS[k])) + nps.np_zeros(old[k].dims), nps.np_zeros(old[k].dims))
            setattr(o, GRADS[k], old[k].copy())
        image = o.render(idframe=scalar(f, "i"))
        p.true("one rendering", len(p.states) == 1)
        st = p.states[0]
        q, t = new((4,), lambda i: num(s["q"].at(f, i[0]))), new((3,), lambda i: num(s["t"].at(f, i[0])))
        rendered(p, o, st, s, s["x"], q, t, "multi")
        p.eq("background", st["bgc"], bg)
        p.eq("the image is the rendering", image, st["image"])
        w = symbol("w", H, W, 3)
        o.render_backward(w)
        L = p.dot(w, st["image"])
        for k, n in NAMES.items():
            gradient(p, "gradient of the " + n, L, s[k], getattr(o, GRADS[k]), old[k])
        o.reset()
        initial(p, o, a, "multi", "after reset")
    p.run(run)
    p.use(PATH, *["MeshRGBFitterWithPoseMultiFrame." + f for f in ("__init__", "set_mesh_transform_init", "reset", "set_background_color", "set_images", "render", "clear_gradients", "render_backward")])


GRADS = dict(x="_vertices_b", q="transform_quaternion_b", t="transform_translation_b", mc="mesh_color_b", ld="light_directional_b", la="light_ambient_b")
NAMES = dict(x="vertices", q="rotation", t="translation", mc="colour", ld="directional light", la="ambient light")


def v_multi(rep, frames=2, lights=True, color=True):
    """The sum over the frames; the number of frames is fixed in each run."""
    p = Py(rep, f"MeshRGBFitterWithPoseMultiFrame, {frames} frames, lights {'updated' if lights else 'fixed'}, colour {'updated' if color else 'fixed'}")

    def run(p):
        global N
        keep, N = N, frames
        try:
            go(p)
        finally:
            N = keep

    def go(p):
        m = setup(p)
        o, a = fitter(p, m, "multi", lights, color)
        bg = symbol("bg", 3)
        o.set_background_color(bg)
        T = [symbol(f"T{k}", H, W, 3) for k in range(frames)]
        o.set_images(list(T), focal=scalar(var("focal")))
        s = anystate(p, o, "multi")
        it = var("iter", "I")
        p.c.assume(cmp("<=", 0, it))
        o.iter = scalar(it, "i")
        E, images, diffs = o.step()
        p.true("one rendering per frame", len(p.states) == frames)
        x = centre(s["x"])
        L = P.of(0)
        for k, st in enumerate(p.states):
            rendered(p, o, st, s, x, s["q"][k], s["t"][k], "multi")
            p.eq("background", st["bgc"], bg)
            p.eq("the image is the rendering", images[k], st["image"])
            r = st["image"] - T[k]
            p.eq("squared residual", diffs[k], nps.np_sum(r * r, axis=2))
            L = L + total(r * r) * var("cdata") / frames
        p.true("one image per frame", len(images) == frames == len(diffs))
        p.true("one evaluation of the rigidity", len(p.evals) == 1)
        p.eq("rigidity of the current vertices", p.evals[0], x)
        p.eq("energy", asA(E), scalar(L + var("Erigid0")))
        g = {k: asA(getattr(o, GRADS[k])) for k in GRADS}
        for k, n in NAMES.items():
            # for the vertices before they are centred (later iterations use the gradient for the centred ones)
            gradient(p, "gradient of the " + n, L, s[k], centre(g[k]) if k == "x" and not valid(cmp("<", it, 500)) else g[k])
        updates(p, o, s, "multi", dict(g, x=g["x"] + symbol("Grigid0", V, 3)), x, lights, color)
        for t in T:
            p.true("the images are not modified", t.buf.version == 0)
        o.reset()
        initial(p, o, a, "multi", "after reset")
        for k, v in a.items():
            p.true(f"{k} is not modified", v.buf.version == 0)
    p.run(run)
    p.use(PATH, *["MeshRGBFitterWithPoseMultiFrame." + f for f in ("energy_data", "step")])
