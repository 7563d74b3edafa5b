"""C18, C21, C22: Scene3D of deodr/differentiable_renderer.py.

The renderer, the camera and the mesh are used by their contracts: the compiled renderer
(C01-C10, dv/vc/pyscene.py), the camera's projection and its adjoint (C12, C13), the mesh's
vertex normals and their adjoint (C14, C15) and its silhouette flags (C17)."""
from .pyver import *
from . import pyscene
from .pyscene import V, U, F, H, W, C, TH, TW, Cpp, freeze, same, PATH, arrays_unchanged


class Camera:
    """Contract of a camera: projected points and depths are functions of the points; the
    backward projection is the adjoint, for the projection stored in store_backward."""

    def __init__(self, p, name):
        self.p, self.name, self.height, self.width = p, name, H, W
        self.seen, self.back = [], []

    def project_points(self, points_3d, return_depths=True, store_backward=None):
        q = Py(type(self.p.rep)(), "comparison")
        q.c = self.p.c
        pts = freeze(points_3d)
        k = next((i for i, s in enumerate(self.seen) if same(q, "", s, pts)), len(self.seen))
        if k == len(self.seen):
            self.seen.append(pts)
        n = pts.dims[0]
        if store_backward is not None:
            store_backward["project_points"] = (self, k)
        ij = symbol(f"ij:{self.name}{k}", n, 2)
        return (ij, symbol(f"depth:{self.name}{k}", n)) if return_depths else ij

    def project_points_backward(self, projected_b, depths_b=None, store_backward=None):
        self.p.true("backward projection of a stored projection", bool(store_backward) and "project_points" in store_backward and store_backward["project_points"][0] is self)
        n = len(self.back)
        self.back.append(dict(forward=store_backward["project_points"][1], ij_b=freeze(projected_b), depths_b=freeze(depths_b)))
        return symbol(f"x_b:{self.name}{n}", V, 3)


def mesh_class(p, real=None):
    real = real or p.get("mesh").ColoredTriMesh

    class Mesh(real):
        """Contracts of the mesh: normals and silhouettes are functions of its vertices."""

        def _current(self):
            q = Py(type(p.rep)(), "comparison")
            q.c = p.c
            k = next((i for i, s in enumerate(self.seen_) if same(q, "", s, self._vertices)), len(self.seen_))
            if k == len(self.seen_):
                self.seen_.append(freeze(self._vertices))
            return k

        def compute_vertex_normals(self):
            pass

        @property
        def vertex_normals(self):
            return symbol(f"normals{self._current()}", V, 3)

        def edge_on_silhouette(self, points_2d):
            q = Py(type(p.rep)(), "comparison")
            q.c = p.c
            k = next((i for i, x in enumerate(self.silhouettes_) if same(q, "", x, points_2d)), len(self.silhouettes_))
            if k == len(self.silhouettes_):
                self.silhouettes_.append(freeze(points_2d))
            return symbol(f"silhouette{k}", F, 3, dtype="b")

        def compute_vertex_normals_backward(self, vertex_normals_b):
            n = len(self.normals_b_)
            self.normals_b_.append((self._current(), freeze(vertex_normals_b)))
            self._vertices_b += symbol(f"normals_x_b{n}", V, 3)
    return Mesh


def setup(p, textured=False, background="image", light=True, cw=False, perspective=False, integer=True, channels=None):
    p.cpp = p.env._m["cpp"] = Cpp(p)
    dr = p.get("dr")
    nps.AXIOMS["faces"] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), V.base.size))]
    nps.AXIOMS["faces_uv"] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), U.base.size))]
    for d in (H, W, C, TH, TW, V, U, F):
        p.c.assume(cmp("<", 0, d.base.size))
    M = mesh_class(p)
    c = channels or C
    x, f = symbol("x", V, 3), symbol("faces", F, 3, dtype="i")
    col = None if textured else symbol("col", V, c)
    tex = dict(uv=symbol("uv", U, 2), faces_uv=symbol("faces_uv", F, 3, dtype="u4"), texture=symbol("texture", TH, TW, c)) if textured else {}
    m = object.__new__(M)
    m.seen_, m.silhouettes_, m.normals_b_ = [], [], []
    M.__init__(m, faces=f, vertices=x, clockwise=cw, colors=col, compute_adjacencies=False, **tex)
    sigma = var("sigma")
    p.c.assume(cmp("<=", 0, sigma))
    s = dr.Scene3D(sigma=scalar(sigma), perspective_correct=perspective, integer_pixel_centers=integer)
    l, amb = symbol("light", 3) if light else None, var("ambient")
    s.set_light(l, scalar(amb))
    s.set_mesh(m)
    bg = symbol("bg", H, W, c) if background == "image" else symbol("bgc", c)
    if background == "image":
        s.set_background_image(bg)
    elif background == "color":
        s.set_background_color(bg)
    return dr, s, m, dict(x=x, faces=f, col=col, light=l, amb=amb, sigma=sigma, bg=bg, **tex)


def luminosity(a, k=0):
    n = symbol(f"normals{k}", V, 3)

    def f(i):
        if a["light"] is None:
            return a["amb"]
        d = -sum((num(n.at(i[0], j)) * num(a["light"].at(j)) for j in range(3)), P.of(0))
        return a["amb"] + ind(cmp("<", 0, d)) * d
    return new((V,), f)


def off_terminator(a, k=0):
    """No normal is orthogonal to the light: there the luminosity has no derivative."""
    if a["light"] is None:
        return
    n = symbol(f"normals{k}", V, 3)
    nps.AXIOMS[f"normals{k}"] = lambda at: [bnot(cmp("==", sum((num(n.at(at.args[0], j)) * num(a["light"].at(j)) for j in range(3)), P.of(0)), 0))]


def inputs_unchanged(p, when, a):
    for k, v in a.items():
        if isinstance(v, A):
            p.true(f"{when}: {k} is not modified", v.buf.version == 0)


def v_lighting(rep):
    for light in (True, False):
        p = Py(rep, f"Scene3D lighting, {'directional and ambient' if light else 'ambient'} light")

        def run(p):
            dr, s, m, a = setup(p, light=light)
            off_terminator(a)
            p.eq("luminosity of the vertices", s.compute_vertices_luminosity(), luminosity(a))
            cam = Camera(p, "a")
            s.render(cam)
            col = p.cpp.fwd[0]["scene"]["colors"]
            p.eq("vertex colours times luminosity", col, new((V, C), lambda i: num(a["col"].at(i[0], i[1])) * num(luminosity(a).at(i[0]))))
            w = symbol("w", H, W, C)
            s.render_backward(w)
            g = p.cpp.grad("colors", p.cpp.bwd[0]["id"], V, C)
            L = p.dot(g, col)
            p.adjoint("gradient of the vertex colours", L, a["col"], m.vertices_colors_b)
            amb = a["amb"]
            p.zero("gradient of the ambient light", num(asA(s.light_ambient_b).item()) - ddx(L, wrt("ambient", ())))
            if light:
                p.adjoint("gradient of the directional light", L, a["light"], s.light_directional_b)
                p.true("gradient of the normals is propagated once", len(m.normals_b_) == 1)
                p.adjoint("gradient of the normals", L, symbol("normals0", V, 3), m.normals_b_[0][1])
            else:
                p.true("no gradient of the normals", not m.normals_b_)
            inputs_unchanged(p, "lighting", a)
        p.run(run)
    p.use(PATH, "Scene3D.__init__", "Scene3D.set_light", "Scene3D.compute_vertices_luminosity", "Scene3D._compute_vertices_colors_with_illumination",
          "Scene3D._compute_vertices_colors_with_illumination_backward", "Scene3D.compute_vertices_luminosity_backward")


def geometry(p, s, m, a, sc, cam, k=0, sigma=None):
    """The part of the 2D scene common to all renderings."""
    p.true("projected vertices: those of the mesh", len(cam.seen) > k)
    p.eq("projected vertices: those of the mesh", cam.seen[k], m.vertices)
    p.eq("positions in the image", sc["ij"], symbol(f"ij:{cam.name}{k}", V, 2))
    p.eq("depths of the vertices", sc["depths"], symbol(f"depth:{cam.name}{k}", V))
    p.eq("faces", sc["faces"], a["faces"])


def flags(p, m, a, sc, cam, k=0):
    if valid(cmp("<", 0, a["sigma"])):
        p.true("silhouette flags", len(m.silhouettes_) >= 1)
        p.eq("silhouette of the projected vertices", m.silhouettes_[-1], symbol(f"ij:{cam.name}{k}", V, 2))
        p.eq("silhouette flags", sc["edgeflags"], symbol(f"silhouette{len(m.silhouettes_) - 1}", F, 3, dtype="b"))
    else:
        p.true("zero width", cmp("==", a["sigma"], 0))
        p.eq("no silhouette flags", sc["edgeflags"], new((F, 3), lambda i: False, "b"))


def options(p, sc, **k):
    for n, v in k.items():
        if isinstance(v, bool):
            p.true(f"option {n}", bool(sc[n]) is v)
        else:
            same(p, f"option {n}", sc[n], v)


BOOLS = ((False, False, True, True), (True, True, False, False), (False, True, False, True))


def v_render(rep):
    for textured in (False, True):
        for cw, persp, integer, cull in BOOLS:
            for bg in ("image", "color"):
                for light in (True, False):
                    p = Py(rep, f"Scene3D.render, {'textured' if textured else 'colours'}, clockwise={cw} perspective={persp} integer_centers={integer} culling={cull} {bg}{'' if light else ' ambient'}")

                    def run(p):
                        dr, s, m, a = setup(p, textured, bg, light, cw, persp, integer)
                        cam = Camera(p, "a")
                        image, z = s.render(cam, return_z_buffer=True, backface_culling=cull)
                        p.true("one rendering", len(p.cpp.fwd) == 1 and not p.cpp.fwd[0]["err"])
                        f = p.cpp.fwd[0]
                        sc = f["scene"]
                        p.eq("image of the 2D scene", image, f["image"])
                        p.eq("depths of the 2D scene", z, f["z"])
                        geometry(p, s, m, a, sc, cam)
                        flags(p, m, a, sc, cam)
                        p.true("width of the scene", cmp("==", num(asA(f["sigma"]).item()), a["sigma"]))
                        options(p, sc, clockwise=cw, perspective_correct=persp, integer_pixel_centers=integer, backface_culling=cull, strict_edge=True, height=H, width=W, nb_colors=C,
                                background_image=a["bg"] if bg == "image" else None, background_color=a["bg"] if bg != "image" else None)
                        for k in ("textured", "shaded"):
                            p.eq(f"{k} triangles", sc[k], new((F,), lambda i: textured, "b"))
                        if textured:
                            p.eq("texture", sc["texture"], a["texture"])
                            p.eq("texture coordinates", sc["uv"], a["uv"])
                            p.eq("faces of the texture", sc["faces_uv"], a["faces_uv"])
                            p.eq("shade: luminosity of the vertices", sc["shade"], luminosity(a))
                        else:
                            lum = luminosity(a)
                            p.eq("lit colours", sc["colors"], new((V, C), lambda i: num(a["col"].at(i[0], i[1])) * num(lum.at(i[0]))))
                        alone = s.render(cam, backface_culling=cull)
                        p.eq("same image alone", alone, f["image"])
                        inputs_unchanged(p, "rendering", a)
                    p.run(run)
    p = Py(rep, "Scene3D: backgrounds")

    def bad(p):
        dr, s, m, a = setup(p, background=None)
        e = p.raises(lambda: s.render(Camera(p, "a")))
        p.true("no background: refused", e is not None and not p.cpp.fwd)
        s.set_background_image(a["bg"] if a["bg"].ndim == 3 else symbol("bg2", H, W, C))
        e = p.raises(lambda: s.set_background_color(symbol("c", C)))
        p.true("two backgrounds: refused", e is not None and s.background_color is None)
    p.run(bad)
    p.use(PATH, "Scene3D.render", "Scene3D._render_2d", "Scene3D.set_mesh", "Scene3D.set_background_image", "Scene3D.set_background_color", "Scene2D.__init__", "renderScene")


def v_depth(rep):
    for cw, persp, integer, cull in BOOLS:
        p = Py(rep, f"Scene3D.render_depth, clockwise={cw} perspective={persp} integer_centers={integer} culling={cull}")

        def run(p):
            dr, s, m, a = setup(p, cw=cw, perspective=persp, integer=integer, channels=1)
            cam, scale = Camera(p, "a"), var("scale")
            image = s.render_depth(cam, scalar(scale), backface_culling=cull)
            p.true("one rendering", len(p.cpp.fwd) == 1 and not p.cpp.fwd[0]["err"])
            f = p.cpp.fwd[0]
            sc = f["scene"]
            p.eq("image of the 2D scene", image, f["image"])
            geometry(p, s, m, a, sc, cam)
            flags(p, m, a, sc, cam)
            p.true("width of the scene", cmp("==", num(asA(f["sigma"]).item()), a["sigma"]))
            options(p, sc, clockwise=cw, perspective_correct=persp, integer_pixel_centers=integer, backface_culling=cull, strict_edge=True, height=H, width=W, nb_colors=1, background_image=a["bg"], background_color=None)
            p.eq("depths times the scale", sc["colors"], new((V, 1), lambda i: num(symbol("depth:a0", V).at(i[0])) * scale))
            for k in ("textured", "shaded"):
                p.eq(f"no {k} triangles", sc[k], new((F,), lambda i: False, "b"))
            inputs_unchanged(p, "rendering", a)
        p.run(run)
    p.use(PATH, "Scene3D.render_depth")


# ------------------------------------------------------------------ C22

def check_color_backward(p, s, m, a, cam, w, k=0, vid=0):
    """After render_backward(w) of the rendering last done with cam (its k-th projection): every gradient is that of this view alone."""
    b = p.cpp.bwd[-1]
    p.eq("the gradient given by the caller is differentiated", b["g"], w)
    p.true("of the rendering done last", b["forward"] == p.cpp.fwd[-1]["id"])
    p.unchanged("backward", gradient=w)
    g = p.cpp.grad("colors", b["id"], V, C)
    col = p.cpp.fwd[-1]["scene"]["colors"]
    L = p.dot(g, col)
    p.adjoint("gradient of the vertex colours", L, a["col"], m.vertices_colors_b)
    p.zero("gradient of the ambient light", num(asA(s.light_ambient_b).item()) - ddx(L, wrt("ambient", ())))
    c = cam.back[-1]
    p.true("projection of this view", c["forward"] == k)
    p.eq("gradient of the image positions", c["ij_b"], p.cpp.grad("ij", b["id"], V, 2))
    p.true("no gradient of the depths", c["depths_b"] is None)
    want = symbol(f"x_b:{cam.name}{len(cam.back) - 1}", V, 3)
    if a["light"] is not None:
        p.adjoint("gradient of the directional light", L, a["light"], s.light_directional_b)
        n = len(m.normals_b_) - 1
        p.true("normals of the current vertices", n >= 0 and m.normals_b_[n][0] == vid)
        p.adjoint("gradient of the normals", L, symbol(f"normals{vid}", V, 3), m.normals_b_[n][1])
        want = want + symbol(f"normals_x_b{n}", V, 3)
    p.eq("gradient of the vertices: projection plus normals", m._vertices_b, want)
    inputs_unchanged(p, "backward", a)


def check_depth_backward(p, s, m, a, cam, w, scale, k=0):
    b = p.cpp.bwd[-1]
    p.eq("the gradient given by the caller is differentiated", b["g"], w)
    p.true("of the rendering done last", b["forward"] == p.cpp.fwd[-1]["id"])
    p.unchanged("backward", gradient=w)
    c = cam.back[-1]
    p.true("projection of this view", c["forward"] == k)
    p.eq("gradient of the image positions", c["ij_b"], p.cpp.grad("ij", b["id"], V, 2))
    g = p.cpp.grad("colors", b["id"], V, 1)
    p.eq("gradient of the depths", c["depths_b"], new((V,), lambda i: num(g.at(i[0], 0)) * scale))
    p.eq("gradient of the vertices: projection", m._vertices_b, symbol(f"x_b:{cam.name}{len(cam.back) - 1}", V, 3))


def v_gradients(rep):
    for light in (True, False):
        for cw, integer in ((False, True), (True, False)):
            p = Py(rep, f"Scene3D.render_backward, {'directional' if light else 'ambient'} light, clockwise={cw} integer_centers={integer}")

            def run(p):
                dr, s, m, a = setup(p, light=light, cw=cw, integer=integer)
                off_terminator(a)
                A_, B_ = Camera(p, "a"), Camera(p, "b")
                w1, w2, w3, w4, w5, w6 = [symbol(f"w{i}", H, W, C) for i in range(1, 7)]
                s.render(A_)
                s.render_backward(w1)
                check_color_backward(p, s, m, a, A_, w1)
                # another view after a backward pass
                s.render(B_)
                s.render_backward(w2)
                check_color_backward(p, s, m, a, B_, w2)
                # two renderings, then backward
                s.render(A_)
                s.render(B_)
                s.render_backward(w3)
                check_color_backward(p, s, m, a, B_, w3)
                # backward again after clearing
                s.clear_gradients()
                s.render_backward(w4)
                check_color_backward(p, s, m, a, B_, w4)
                # other vertices
                y = symbol("y", V, 3)
                m.set_vertices(y)
                p.eq("gradient cleared with new vertices", m._vertices_b, nps.np_zeros((V, 3)))
                if light:
                    off_terminator(a, 1)
                s.render(A_)
                s.render_backward(w5)
                check_color_backward(p, s, m, a, A_, w5, 1, 1)
                s.render(A_, backface_culling=True)
                s.render_backward(w6)
                check_color_backward(p, s, m, a, A_, w6, 1, 1)
            p.run(run)
            p = Py(rep, f"Scene3D.render_depth_backward, {'directional' if light else 'ambient'} light, clockwise={cw} integer_centers={integer}")

            def depth(p):
                dr, s, m, a = setup(p, light=light, cw=cw, integer=integer, channels=1)
                A_, B_ = Camera(p, "a"), Camera(p, "b")
                s1, s2 = var("s1"), var("s2")
                w1, w2, w3, w4 = [symbol(f"w{i}", H, W, 1) for i in range(1, 5)]
                s.render_depth(A_, scalar(s1))
                s.render_depth_backward(w1)
                check_depth_backward(p, s, m, a, A_, w1, s1)
                s.render_depth(B_, scalar(s2))
                s.render_depth_backward(w2)
                check_depth_backward(p, s, m, a, B_, w2, s2)
                s.clear_gradients()
                s.render_depth_backward(w3)
                check_depth_backward(p, s, m, a, B_, w3, s2)
                s.render(A_)
                s.render_depth(A_, scalar(s2))
                s.render_depth_backward(w4)
                check_depth_backward(p, s, m, a, A_, w4, s2)
                inputs_unchanged(p, "backward", a)
            p.run(depth)
    p = Py(rep, "Scene3D: unsupported gradients")

    def refused(p):
        dr, s, m, a = setup(p, perspective=True)
        s.render(Camera(p, "a"))
        e = p.raises(lambda: s.render_backward(symbol("w", H, W, C)))
        p.true("perspective: refused", e is not None and not p.cpp.bwd)
    p.run(refused)
    p.use(PATH, "Scene3D.render_backward", "Scene3D.render_depth_backward", "Scene3D._render_2d_backward", "Scene3D.clear_gradients", "renderSceneB")


# ------------------------------------------------------------------ deferred rendering

def v_deferred(rep):
    keys = ("depth", "face_id", "barycentric", "normal", "luminosity", "xyz", "color", "uv")
    sel = [dict.fromkeys(keys, True)] + [dict.fromkeys(keys, False) | {k: True} for k in keys] + [{k: i % 2 == j for i, k in enumerate(keys)} for j in (0, 1)]
    for textured in (False, True):
        for n, on in enumerate(sel):
            if textured and sum(on.values()) == 1 and on["color"] or not textured and sum(on.values()) == 1 and on["uv"]:
                continue
            cw, persp, integer, cull = BOOLS[n % 3]
            p = Py(rep, f"Scene3D.render_deferred, {'textured' if textured else 'colours'}, {'all' if all(on.values()) else ' '.join(k for k in keys if on[k])}")

            def run(p):
                dr, s, m, a = setup(p, textured, None, True, cw, persp, integer, channels=None if textured else 3)
                s.sigma = 0
                scale = var("scale")
                cam = Camera(p, "a")
                out = s.render_deferred(cam, scalar(scale), backface_culling=cull, **on)
                p.true("one rendering", len(p.cpp.fwd) == 1 and not p.cpp.fwd[0]["err"])
                f = p.cpp.fwd[0]
                sc = f["scene"]
                p.eq("no antialiasing", asA(f["sigma"]), asA(0))
                fa = lambda t: num(a["faces"].at(t[1], t[2]))
                D = nps.Prod((F, 3))
                # corner c of face f is a vertex of its own
                vert = lambda fn, n: new((D, n), lambda i: fn(i[0][1], i[0][2], num(a["faces"].at(i[0][1], i[0][2])), i[1]))
                ij, dep = symbol("ij:a0", V, 2), symbol("depth:a0", V)
                p.eq("projected vertices: those of the mesh", cam.seen[0], m.vertices)
                p.eq("faces: three vertices of their own", sc["faces"], new((F, 3), lambda i: 3 * i[0] + i[1], "i"))
                p.eq("positions in the image", sc["ij"], vert(lambda t, c, v, k: num(ij.at(v, k)), 2))
                p.eq("depths of the vertices", asA(sc["depths"]).reshape((D,)), new((D,), lambda i: num(dep.at(num(a["faces"].at(i[0][1], i[0][2]))))))
                options(p, sc, clockwise=cw, perspective_correct=persp, integer_pixel_centers=integer, backface_culling=cull, strict_edge=True, height=H, width=W)
                for k in ("textured", "shaded"):
                    p.eq(f"no {k} triangles", sc[k], new((F,), lambda i: False, "b"))
                p.eq("no silhouette flags", sc["edgeflags"], new((F, 3), lambda i: False, "b"))
                lum, nor = luminosity(a), symbol("normals0", V, 3)
                spec = dict(depth=(1, lambda t, c, v, k: num(dep.at(v)) * scale), face_id=(1, lambda t, c, v, k: t), barycentric=(3, lambda t, c, v, k: ind(cmp("==", P.of(c), P.of(k)))),
                            normal=(3, lambda t, c, v, k: num(nor.at(v, k))), luminosity=(1, lambda t, c, v, k: num(lum.at(v))), xyz=(3, lambda t, c, v, k: num(a["x"].at(v, k))))
                if textured:
                    spec["uv"] = (2, lambda t, c, v, k: num(a["uv"].at(num(a["faces_uv"].at(t, c)), k)))
                else:
                    spec["color"] = (3, lambda t, c, v, k: num(a["col"].at(v, k)))
                want = [k for k in spec if on[k]]
                p.true("the requested attributes", sorted(out) == sorted(want), f"{sorted(out)}")
                im = f["image"]
                total = sum(spec[k][0] for k in want)
                options(p, sc, nb_colors=total)
                # the channels of an attribute, in the image and in the vertices
                for k in want:
                    n, fn = spec[k]
                    o = asA(out[k])
                    first = None
                    for st in range(total - n + 1):
                        if all(nps.same_dim(x, y) for x, y in zip(o.dims[:2], (H, W))) and o.dims[2] == n and same_quiet(p, o, im[:, :, st:st + n]):
                            first = st
                    p.true(f"channels of {k}", first is not None)
                    if first is not None:
                        p.eq(f"{k} of the visible face", sc["colors"][:, first:first + n], vert(fn, n))
                inputs_unchanged(p, "rendering", a)
            p.run(run)
    p = Py(rep, "Scene3D.render_deferred with antialiasing")

    def bad(p):
        dr, s, m, a = setup(p, background=None)
        s.sigma = 1
        e = p.raises(lambda: s.render_deferred(Camera(p, "a")))
        p.true("refused", e is not None and not p.cpp.fwd)
    p.run(bad)
    p.use(PATH, "Scene3D.render_deferred", "renderScene")


def same_quiet(p, a, b):
    q = Py(type(p.rep)(), "comparison")
    q.c = p.c
    return q.eq("", a, b)


def v_settings(rep):
    """What a new scene or mesh contains, and what the setters put there."""
    p = Py(rep, "Scene3D and ColoredTriMesh: settings")

    def run(p):
        dr, m = p.get("dr"), p.get("mesh")
        p.cpp = p.env._m["cpp"] = Cpp(p)
        for d in (H, W, C, TH, TW, V, U, F):
            p.c.assume(cmp("<", 0, d.base.size))
        nps.AXIOMS["faces"] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), V.base.size))]
        s = dr.Scene3D()
        p.true("a new scene has antialiasing of one pixel, linear interpolation, integer pixel centers", s.sigma == 1 and s.perspective_correct is False and s.integer_pixel_centers is True)
        p.true("a new scene has no directional light", s.light_directional is None)
        p.eq("a new scene has no ambient light", asA(s.light_ambient), asA(0))
        p.true("a new scene has no background", s.background_image is None and s.background_color is None)
        image, color = symbol("bg", H, W, C), symbol("bgc", C)
        o = dr.Scene3D()
        o.set_background_image([[[0.25, 0.5]]])
        p.true("a background image given as lists becomes an array", isinstance(o.background_image, nps.A) and o.background_image.dims == (1, 1, 2))
        p.eq("a background image given as lists becomes an array", o.background_image, asA([[[0.25, 0.5]]]))
        s.set_background_image(image)
        p.eq("background image", s.background_image, image)
        p.true("a background colour on top of a background image is refused", p.raises(s.set_background_color, color) is not None)
        p.true("refused background colour: the image stays", s.background_color is None)
        p.eq("refused background colour: the image stays", s.background_image, image)
        other = symbol("bg2", H, W, C)
        s.set_background_image(other)
        p.eq("another background image", s.background_image, other)
        s = dr.Scene3D()
        s.set_background_color(color)
        p.eq("background colour", s.background_color, color)
        s = dr.Scene3D()
        s.set_background_color([0.25, 0.5, 1])
        p.true("a background colour given as a list becomes an array", isinstance(s.background_color, nps.A) and s.background_color.dims == (3,))
        p.eq("a background colour given as a list becomes an array", s.background_color, asA([0.25, 0.5, 1]))
        p.true("a background image on top of a background colour is refused", p.raises(s.set_background_image, image) is not None)
        p.true("refused background image: the colour stays", s.background_image is None)
        s = dr.Scene3D()
        s.set_background(image)
        p.eq("background image by the old name", s.background_image, image)
        light = symbol("light", 3)
        s.set_light(light, scalar(var("ambient")))
        p.eq("directional light", s.light_directional, light)
        p.eq("ambient light", asA(s.light_ambient), scalar(var("ambient")))
        s.set_light(None, scalar(var("ambient2")))
        p.true("no directional light any more", s.light_directional is None)
        p.eq("another ambient light", asA(s.light_ambient), scalar(var("ambient2")))
        x, f, col = symbol("x", V, 3), symbol("faces", F, 3, dtype="i"), symbol("col", V, C)
        uv, fuv, tex = symbol("uv", U, 2), symbol("faces_uv", F, 3, dtype="u4"), symbol("texture", TH, TW, C)
        for name, k, nb in (("colours", dict(colors=col), C), ("texture", dict(uv=uv, faces_uv=fuv, texture=tex), C), ("number of colours", dict(nb_colors=3), 3)):
            for cw in (False, True):
                o = m.ColoredTriMesh(f, x, clockwise=cw, compute_adjacencies=False, **k)
                p.eq(name + ": vertices", o.vertices, x)
                p.eq(name + ": faces", o.faces, f)
                p.eq(name + ": no gradient yet", o._vertices_b, nps.np_zeros((V, 3)))
                p.true(name + ": orientation", bool(o.clockwise) is cw)
                p.true(name + ": sizes", nps.same_dim(o.nb_vertices, V) and nps.same_dim(o.nb_faces, F))
                p.true(name + ": channels", nps.same_dim(o.nb_colors, nb))
                p.true(name + ": textured", bool(o.textured) is ("texture" in k))
                for a, key in (("uv", "uv"), ("faces_uv", "faces_uv"), ("texture", "texture"), ("vertices_colors", "colors")):
                    if key in k:
                        p.eq(f"{name}: {a}", getattr(o, a), k[key])
                    else:
                        p.true(f"{name}: no {a}", getattr(o, a) is None)
                col2 = symbol("col2", V, C)
                o.set_vertices_colors(col2)
                p.eq(name + ": the colours are replaced", o.vertices_colors, col2)
        p.true("a mesh without colours is refused", p.raises(lambda: m.ColoredTriMesh(f, x, compute_adjacencies=False)) is not None)
        for k, v in dict(image=image, color=color, light=light, x=x, faces=f, col=col, uv=uv, texture=tex).items():
            p.true(f"{k} is not modified", v.buf.version == 0)
    p.run(run)
    p.use(PATH, "Scene3D.__init__", "Scene3D.set_light", "Scene3D.set_background", "Scene3D.set_background_image", "Scene3D.set_background_color")
    p.use("deodr/triangulated_mesh.py", "ColoredTriMesh.__init__", "ColoredTriMesh.set_vertices_colors", "TriMesh.__init__", "TriMesh.vertices", "TriMesh.faces", "TriMesh.nb_vertices", "TriMesh.nb_faces")
