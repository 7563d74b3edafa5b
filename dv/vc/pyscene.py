"""C11, C27: Scene2D of deodr/differentiable_renderer.py, with the C++ renderer as a contract.

The contract of renderSceneCpp / renderSceneBCpp (C01-C10): the forward call reads the
scene and the observation and writes image, depth and error buffers, which depend on
nothing else; the backward call, given the scene, the width, the depths and the image of
the forward call, adds its adjoint to the scene's gradients and may overwrite the incoming gradients and, in
image mode, the image, in error mode the error buffer.  A call is checked against the precondition
(the arguments of a backward call are those of a forward call, unmodified)."""
from .pyver import *

PATH = "deodr/differentiable_renderer.py"
V, U, F, H, W, C, TH, TW = (B(n) for n in ("V", "U", "F", "H", "W", "C", "TH", "TW"))
ARRAYS = ("faces", "faces_uv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags", "texture", "background_image", "background_color")
GRADS = ("ij", "uv", "shade", "colors", "texture")
FLAGS = ("clockwise", "backface_culling", "strict_edge", "perspective_correct", "integer_pixel_centers")


def freeze(a):
    return a.copy() if isinstance(a, A) else a


def same(p, name, a, b):
    if a is None or b is None:
        return p.true(name, a is None and b is None)
    if isinstance(a, bool) and isinstance(b, bool):
        return p.true(name, a == b)
    if isinstance(a, A) and isinstance(b, A) and a.buf is b.buf and a.buf.version == 0 and b.buf.version == 0 and a.spec == b.spec:
        return p.true(name, True)
    return p.eq(name, asA(a), asA(b))


class Cpp:
    """The compiled renderer, by its contract."""

    def __init__(self, p):
        self.p, self.fwd, self.bwd = p, [], []
        self.current = -1   # the forward call that the next backward call differentiates

    def snap(self, s):
        d = {k: freeze(getattr(s, k)) for k in ARRAYS}
        d.update({k: getattr(s, k) for k in FLAGS + ("height", "width", "nb_colors")})
        return d

    def renderSceneCpp(self, scene, sigma, image, z_buffer, antialiase_error=False, obs=None, err_buffer=None, check_valid=True):
        n = len(self.fwd)
        err = bool(antialiase_error)
        c = dict(scene=self.snap(scene), sigma=sigma, err=err, obs=freeze(obs) if err else None)
        # equal inputs give equal outputs
        k = next((m for m, o in enumerate(self.fwd) if self.equal(c, o)), n)
        c["id"] = self.fwd[k]["id"] if k < n else n
        i = c["id"]
        image.assign(symbol(f"image{i}", *image.dims))
        z_buffer.assign(symbol(f"z{i}", *z_buffer.dims))
        c["image"], c["z"] = image.copy(), z_buffer.copy()
        if err:
            err_buffer.assign(symbol(f"err{i}", *err_buffer.dims))
            c["err_buffer"] = err_buffer.copy()
        self.fwd.append(c)

    def equal(self, a, b):
        q = Py(type(self.p.rep)(), "comparison")
        q.c = self.p.c
        ok = a["err"] == b["err"] and same(q, "", a["sigma"], b["sigma"]) and same(q, "", a["obs"], b["obs"])
        return ok and all(same(q, k, a["scene"][k], b["scene"][k]) for k in a["scene"])

    def renderSceneBCpp(self, scene, sigma, image, z_buffer, image_b=None, antialiase_error=False, obs=None, err_buffer=None, err_buffer_b=None, check_valid=True):
        p, err = self.p, bool(antialiase_error)
        p.true("backward after forward", bool(self.fwd))
        f = self.fwd[self.current]
        pre = "precondition of the backward rendering: "
        p.true(pre + "same mode", f["err"] == err)
        now = self.snap(scene)
        for k in now:
            same(p, pre + k, now[k], f["scene"][k])
        same(p, pre + "sigma", sigma, f["sigma"])
        same(p, pre + "image of the forward rendering", image, f["image"])
        same(p, pre + "depths of the forward rendering", z_buffer, f["z"])
        g = err_buffer_b if err else image_b
        if err:
            same(p, pre + "observation", obs, f["obs"])
            same(p, pre + "error buffer of the forward rendering", err_buffer, f["err_buffer"])
        p.true(pre + "culling, no perspective correction", scene.backface_culling is True and scene.perspective_correct is False)
        c = dict(forward=f["id"], g=g.copy(), err=err)
        q = Py(type(p.rep)(), "comparison")
        q.c = p.c
        c["id"] = next((b["id"] for b in self.bwd if b["forward"] == c["forward"] and same(q, "", b["g"], c["g"])), len(self.bwd))
        self.bwd.append(c)
        for k in GRADS:
            a = getattr(scene, k + "_b")
            b = getattr(scene, k)
            if b is None:
                continue
            if not p.true(pre + f"a gradient array for {k}", isinstance(a, A) and len(a.dims) == len(b.dims) and all(nps.same_dim(x, y) for x, y in zip(a.dims, b.dims))) or 0 in a.dims:
                continue
            p.true(f"the gradient array of {k} is one of its own", all(a.buf is not getattr(scene, x).buf for x in ARRAYS if getattr(scene, x) is not None))
            a += symbol(f"g:{k}:{c['id']}", *a.dims)
        j = len(self.bwd)
        if not err:
            image.assign(symbol(f"junk:image{j}", *image.dims))
        g.assign(symbol(f"junk:g{j}", *g.dims))
        if err:
            err_buffer.assign(symbol(f"junk:err{j}", *err_buffer.dims))

    def grad(self, k, n, *dims):
        return symbol(f"g:{k}:{n}", *dims)


def scene(p, background="image", culling=True, perspective=False, **kw):
    p.cpp = p.env._m["cpp"] = Cpp(p)
    dr = p.get("dr")
    nps.AXIOMS["faces"] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), V.base.size))]
    nps.AXIOMS["faces_uv"] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), U.base.size))]
    a = dict(faces=symbol("faces", F, 3, dtype="u4"), faces_uv=symbol("faces_uv", F, 3, dtype="u4"), ij=symbol("ij", V, 2), depths=symbol("depths", V), textured=symbol("textured", F, dtype="b"),
             uv=symbol("uv", U, 2), shade=symbol("shade", V), colors=symbol("colors", V, C), shaded=symbol("shaded", F, dtype="b"), edgeflags=symbol("edgeflags", F, 3, dtype="b"),
             texture=symbol("texture", TH, TW, C), background_image=symbol("bg", H, W, C) if background == "image" else None, background_color=symbol("bgc", C) if background != "image" else None)
    for d in (H, W, C, TH, TW, V, U, F):
        p.c.assume(cmp("<", 0, d.base.size))
    s = dr.Scene2D(height=H, width=W, nb_colors=C, clockwise=kw.get("clockwise", False), backface_culling=culling, strict_edge=True, perspective_correct=perspective, integer_pixel_centers=True, **a)
    return dr, s, a


SHAPE = dict(ij=(V, 2), uv=(U, 2), shade=(V,), colors=(V, C), texture=(TH, TW, C))


def arrays_unchanged(p, when, s, a, **more):
    for k, v in a.items():
        p.true(f"{when}: {k} is the array of the caller", getattr(s, k) is v)
        if v is not None:
            p.true(f"{when}: {k} is not modified", v.buf.version == 0)
    for k, v in more.items():
        if v is not None:
            p.true(f"{when}: {k} is not modified", v.buf.version == 0)


def v_scene2d(rep, errs=(False, True), bgs=("image", "color")):
    for err in errs:
        for bg in bgs:
            p = Py(rep, f"Scene2D.{'render_error' if err else 'render'} and backward, background {bg}")

            def run(p):
                dr, s, a = scene(p, bg)
                p.true("gradients start at zero", True)
                for k in GRADS:
                    p.eq("gradients start at zero", getattr(s, k + "_b"), nps.np_zeros(SHAPE[k]))
                obs = symbol("obs", H, W, C) if err else None
                sigma = var("sigma")
                fwd = (lambda: s.render_error(obs, sigma)) if err else (lambda: s.render(sigma))
                bwd = s.render_error_backward if err else s.render_backward
                out = fwd()
                names = ("image", "depths", "error")[:len(out)]
                p.true("one rendering of this scene", len(p.cpp.fwd) == 1 and p.cpp.fwd[0]["err"] == err)
                f = p.cpp.fwd[0]
                for k, v in a.items():
                    same(p, "rendering of the arrays of the scene", f["scene"][k], v)
                for k, v in (("clockwise", False), ("backface_culling", True), ("strict_edge", True), ("perspective_correct", False), ("integer_pixel_centers", True)):
                    p.true("rendering with the options of the scene", f["scene"][k] is v)
                same(p, "rendering with the given width", f["sigma"], sigma)
                same(p, "rendering with the given observation", f["obs"], obs)
                keys = ("image", "z", "err_buffer")[:len(out)]
                for n, k, b in zip(names, keys, out):
                    p.eq(f"{n} of the renderer", b, f[k])
                arrays_unchanged(p, "rendering", s, a, observation=obs)
                again = fwd()
                for n, x, y in zip(names, again, out):
                    p.eq(f"same {n} when rendered twice", x, y)
                kept = [x.copy() for x in again]
                w, w2 = symbol("w", *((H, W) if err else (H, W, C))), symbol("w2", *((H, W) if err else (H, W, C)))
                bwd(w)
                p.true("one backward rendering", len(p.cpp.bwd) == 1)
                p.eq("the gradient given by the caller is differentiated", p.cpp.bwd[0]["g"], w)
                p.unchanged("backward", gradient=w)
                for n, x, y in zip(names, again, kept):
                    p.eq(f"backward: the saved {n} is not modified", x, y)
                arrays_unchanged(p, "backward", s, a, observation=obs)
                g1 = p.cpp.bwd[0]["id"]
                for k in GRADS:
                    p.eq("gradient after one backward pass", getattr(s, k + "_b"), p.cpp.grad(k, g1, *SHAPE[k]))
                bwd(w2)
                p.true("second backward rendering", len(p.cpp.bwd) == 2)
                p.eq("the second gradient is differentiated", p.cpp.bwd[1]["g"], w2)
                g2 = p.cpp.bwd[1]["id"]
                for k in GRADS:
                    p.eq("two passes give the sum", getattr(s, k + "_b"), p.cpp.grad(k, g1, *SHAPE[k]) + p.cpp.grad(k, g2, *SHAPE[k]))
                s.clear_gradients()
                for k in GRADS:
                    p.eq("cleared gradients", getattr(s, k + "_b"), nps.np_zeros(SHAPE[k]))
                bwd(w)
                p.true("a repeated backward pass is the same", p.cpp.bwd[2]["id"] == g1)
                for k in GRADS:
                    p.eq("a repeated backward pass gives the same gradient", getattr(s, k + "_b"), p.cpp.grad(k, g1, *SHAPE[k]))
                p.unchanged("backward", gradient=w, second_gradient=w2)
                # without copies: same derivative, on a fresh rendering
                s.clear_gradients()
                fwd()
                bwd(symbol("w3", *w.dims), make_copies=False)
                for k in GRADS:
                    p.eq("gradient without copies", getattr(s, k + "_b"), p.cpp.grad(k, p.cpp.bwd[-1]["id"], *SHAPE[k]))
                arrays_unchanged(p, "backward without copies", s, a, observation=obs)
            p.run(run)
    p = Py(rep, "Scene2D: unsupported gradients")

    def refused(p):
        for persp, cull in ((True, True), (False, False)):
            for err in (False, True):
                dr, s, a = scene(p, culling=cull, perspective=persp)
                obs = symbol("obs", H, W, C)
                s.render_error(obs, 1) if err else s.render(1)
                e = p.raises(lambda: s.render_error_backward(symbol("w", H, W)) if err else s.render_backward(symbol("w", H, W, C)))
                p.true("refused with an exception", e is not None and not p.cpp.bwd)
                e = p.raises(lambda: s.render_compare_and_backward(obs, 1, antialiase_error=err))
                p.true("one call: refused with an exception", e is not None and not p.cpp.bwd)
    p.run(refused)
    p.use(PATH, "Scene2D.__init__", "Scene2D.render", "Scene2D.render_error", "Scene2D.render_backward", "Scene2D.render_error_backward", "Scene2D.clear_gradients", "renderScene", "renderSceneB")
    p.rep.trusted.add("renderSceneCpp and renderSceneBCpp: contract stated in dv/vc/pyscene.py (the Cython functions are under contract in dv/vc/pyglue.py, the C++ functions they call in C01-C10)")


def v_compare(rep, errs=(False, True)):
    for err in errs:
        for masked in (False, True):
            for clear in (False, True):
                for copies in (True, False):
                    p = Py(rep, f"Scene2D.render_compare_and_backward, {'error' if err else 'image'} mode, {'mask' if masked else 'no mask'}, {'in place of' if clear else 'added to'} the previous gradients{'' if copies else ', no copies'}")

                    def run(p):
                        dr, s, a = scene(p)
                        obs, sigma = symbol("obs", H, W, C), var("sigma")
                        mask = symbol("mask", H, W) if masked else None
                        old = {k: symbol("old:" + k, *SHAPE[k]) for k in GRADS}
                        for k in GRADS:
                            getattr(s, k + "_b").assign(old[k])
                        image, z, err_buffer, total = s.render_compare_and_backward(obs, sigma, antialiase_error=err, mask=mask, clear_gradients=clear, make_copies=copies)
                        p.true("one rendering", len(p.cpp.fwd) == 1 and p.cpp.fwd[0]["err"] == err)
                        p.true("one backward rendering", len(p.cpp.bwd) == 1)
                        f, b = p.cpp.fwd[0], p.cpp.bwd[0]
                        same(p, "the given width", f["sigma"], sigma)
                        if err:
                            same(p, "the given observation", f["obs"], obs)
                        m = mask if masked else nps.np_ones((H, W))
                        if copies:
                            p.eq("rendered image", image, f["image"])
                        p.eq("depths", z, f["z"])
                        if err:
                            e = symbol("err0", H, W)
                            p.eq("masked error", err_buffer, e * m)
                            want = p.dot(e, m)
                            p.eq("total error", asA(total), asA(want))
                            p.adjoint("derivative of the total given to the renderer", num(asA(total).item()), e, b["g"])
                        else:
                            im = symbol("image0", H, W, C)
                            sq = ((im - obs) * m[:, :, None]) * ((im - obs) * m[:, :, None])
                            p.eq("masked squared residual", err_buffer, sq)
                            p.eq("total error", asA(total), nps.np_sum(sq))
                            p.adjoint("derivative of the total given to the renderer", num(asA(total).item()), im, b["g"])
                        for k in GRADS:
                            g = p.cpp.grad(k, b["id"], *SHAPE[k])
                            p.eq("gradients of the scene", getattr(s, k + "_b"), g if clear else old[k] + g)
                        arrays_unchanged(p, "comparison", s, a, observation=obs, mask=mask)
                    p.run(run)
    p.use(PATH, "Scene2D.render_compare_and_backward")
