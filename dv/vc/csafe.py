"""Memory safety: every function is executed with unknown floating point values (infinities, NaN and any
rounding included): every index must be inside its array.  Integer results of the callees are only known
through the contracts below, each of which is verified the same way."""
from .cscene import *
from .ctx import Report

R32 = (-2 ** 31, 2 ** 31 - 1)
R16 = (-2 ** 15, 2 ** 15 - 1)


def between_(x, lo, hi):
    return band(cmp(">=", x, lo), cmp("<=", x, hi))


def ints(ctx, name, rng):
    x = ctx.fresh(name, "I")
    ctx.assume(between_(x, *rng))
    return x


def nop(I, args, f):
    return FLOAT


def s_floor(I, args, f):
    return ints(I.ctx, "fl", (-INTMAX, INTMAX))


def s_div(I, args, f):
    a = argmap(f, args)
    lo, hi = a["x_min"], a["x_max"]
    if not I.tolerant:
        I.ctx.require("memory: divisions have bounds inside the image", div_bounds(lo, hi))
    r = I.ctx.fresh("div", "I")
    I.ctx.assume(bor(band(cmp("<=", lo, r), cmp("<=", r, hi)), band(cmp("<=", hi, r), cmp("<=", r, lo), cmp(">", lo, hi))))
    return r


def s_xrange(I, args, f):
    a = argmap(f, args)
    if not I.tolerant:
        I.ctx.require("memory: the row range is that of the image", cmp("==", P.of(a["width"]), W))
    b, e = I.ctx.fresh("x_begin", "I"), I.ctx.fresh("x_end", "I")
    I.ctx.assume(band(cmp(">=", b, 0), cmp("<=", b, 32766), cmp("<=", e, W - 1), cmp(">=", e, -32766)))
    I.setlv(a["x_begin"], b)
    I.setlv(a["x_end"], e)


def s_exrange(I, args, f):
    a = argmap(f, args)
    if not I.tolerant:
        I.ctx.require("memory: the row range is that of the image", cmp("==", P.of(a["width"]), W))
    b, e = I.ctx.fresh("x_begin", "I"), I.ctx.fresh("x_end", "I")
    I.ctx.assume(band(cmp(">=", b, 0), bor(cmp("<=", e, W - 1), cmp("<", e, b)), cmp("<=", b, 32766), cmp(">=", e, -32766), cmp("<=", e, 32766)))
    I.setlv(a["x_begin"], b)
    I.setlv(a["x_end"], e)


def s_sort3(I, args, f):
    a = argmap(f, args)
    p = list(itertools.permutations(range(3)))[I.ctx.choose(6)]
    for k in range(3):
        wr(I, a["i"], k, P.of(p[k]))


def s_stencil(I, args, f):
    a = argmap(f, args)
    for n in ("x_min", "x_max"):
        I.setlv(a[n], ints(I.ctx, n, (-INTMAX, INTMAX)))
    for k in range(2):
        for n in ("y_begin", "y_end"):
            wr(I, a[n], k, ints(I.ctx, n, (-INTMAX - 1, INTMAX + 1)))
        for n in ("left_edge_id", "right_edge_id"):
            wr(I, a[n], k, P.of(I.ctx.choose(3)))


def s_estencil(I, args, f):
    a = argmap(f, args)
    y0, y1 = ints(I.ctx, "y_begin", (0, 32767)), ints(I.ctx, "y_end", (-32767, 32767))
    if not I.tolerant:
        I.ctx.require("memory: the rows of the edge are those of the image", cmp("==", P.of(a["height"]), H))
    I.ctx.assume(cmp("<=", y1, H - 1))
    I.setlv(a["y_begin"], y0)
    I.setlv(a["y_end"], y1)


def s_bil(I, args, f):
    a = argmap(f, args)
    if not I.tolerant:
        s = [rd(I, a["I_size"], k) for k in range(2)]
        t = a.get("I")
        ok = isinstance(t, Ptr) and t.obj.name == "Texture" and t.off.const() == 0 and equal(s[0], TW) and equal(s[1], TH) and equal(P.of(a["sizeA"]), C)
        if "I_B" in a:
            ok = ok and isinstance(a["I_B"], Ptr) and a["I_B"].obj.name == "Texture_B" and a["I_B"].off.const() == 0
        for n in ("A", "A_B"):
            if n in a and isinstance(a[n], Ptr):
                d = a[n].obj.dims
                ok = ok and a[n].off.const() == 0 and len(d) == 1 and equal(d[0], C)
        I.ctx.report.add(I.ctx.name + ": memory: textures are sampled with their own size", bool(ok), "path exploration", detail=str(a))


SAFE = {"floor_to_int": s_floor, "floor_div": s_div, "ceil_div": s_div, "get_xrange": s_xrange, "get_edge_xrange_from_ineq": s_exrange, "sort3": s_sort3, "inv_matrix_3x3": nop, "inv_matrix_3x3_B": nop,
        "get_triangle_stencil_equations": s_stencil, "get_edge_stencil_equations": s_estencil, "get_edge_stencil_equations_B": nop, "bilinear_sample": s_bil, "bilinear_sample_B": s_bil, "signedArea": nop}


class MJob(Job):
    def __init__(self, rep, fname, args, pre=base, post=None, skip=(), title="", cut=None, nan=False):
        super().__init__(rep, fname, "memory" + (", " + title if title else ""), {k: v for k, v in SAFE.items() if k != fname and k not in skip}, "safe")
        self.nan = nan
        if cut:
            self.cut = cut
        self.go(args, pre, post)

    def interp(self):
        I = Interp(prog(), self.ctx, "real" if self.nan else "safe", self.contracts, DIMS)
        I.bounds = True
        I.nan = self.nan
        return I

    def go(self, args, pre, post):
        def p(I, a, ctx, r):
            if post:
                post(I, a, ctx, r)

        def thrown(I, a, ctx):
            pass
        n = len(self.report.ob)
        self.run(args, p, pre, thrown)


def ref(n, t="int"):
    return LV(Obj(n, [], None, t), 0, (), t)


def m_ints(rep):
    lo, hi = var("x_min", "I"), var("x_max", "I")
    # finite and infinite values: v_floor_to_int (no value other than NaN behaves otherwise than a real number there)
    v_floor_to_int(rep)
    MJob(rep, "floor_to_int", lambda: dict(x=FLOAT), post=lambda I, a, ctx, r: ctx.require("the result is between -32766 and 32766 for a NaN", between_(r, -INTMAX, INTMAX)), title="NaN", nan=True)
    for n in ("floor_div", "ceil_div"):
        def pre(ctx):
            base(ctx)
            ctx.assume(div_bounds(lo, hi))
        MJob(rep, n, lambda: dict(a=FLOAT, b=FLOAT, x_min=lo, x_max=hi), pre,
             lambda I, a, ctx, r: ctx.require("the result is between the bounds for every double", bor(between_(r, lo, hi), band(cmp(">", lo, hi), between_(r, hi, lo)))))
    MJob(rep, "sort3", lambda: dict(v=Ptr(vec("v", 3, False)), sv=Ptr(out("sv", 3)), i=Ptr(Obj("i", [3], None, "short"))),
         post=lambda I, a, ctx, r: ctx.report.add(ctx.name + ": the indices are a permutation of 0, 1 and 2 for every double", sorted(rd(I, a["i"], k).const() for k in range(3)) == [0, 1, 2], "path exploration"))


def m_ranges(rep):
    def xr():
        return dict(width=W, left_eq=Ptr(vec("left", 3, False)), right_eq=Ptr(vec("right", 3, False)), y=gy, strict_edge=boolvar("strict_edge"), x_min=var("x_min", "I"), x_max=var("x_max", "I"),
                    x_begin=ref("x_begin", "short"), x_end=ref("x_end", "short"))

    def pre(ctx):
        base(ctx)
        for n in ("x_min", "x_max"):
            ctx.assume(between_(var(n, "I"), -INTMAX, INTMAX))

    def post(I, a, ctx, r):
        b, e = I.load(a["x_begin"]), I.load(a["x_end"])
        ctx.require("memory: the range is inside the row", band(cmp(">=", b, 0), cmp("<=", b, 32766), cmp("<=", e, W - 1), cmp(">=", e, -32766)))
    MJob(rep, "get_xrange", xr, pre, post)

    def xe():
        return dict(ineq=Ptr(vec("ineq", 12, False)), width=W, y=gy, x_begin=ref("x_begin"), x_end=ref("x_end"))

    def inv(I, n):
        b, e = I.load(I.job_args["x_begin"]), I.load(I.job_args["x_end"])
        return [("memory: invariant: the range is inside the row", band(cmp(">=", b, 0), bor(cmp("<=", e, W - 1), cmp("<", e, b)))),
                ("memory: invariant: the bounds of the range are near the row", band(cmp("<=", b, W + n * 3), cmp(">=", e, -n * 3 - 1), cmp("<=", e, W + n * 3)))]

    def post2(I, a, ctx, r):
        b, e = I.load(a["x_begin"]), I.load(a["x_end"])
        ctx.require("memory: the range is inside the row", band(cmp(">=", b, 0), bor(cmp("<=", e, W - 1), cmp("<", e, b)), cmp("<=", b, 32766), cmp(">=", e, -32766), cmp("<=", e, 32766)))
    MJob(rep, "get_edge_xrange_from_ineq", xe, base, post2, cut=inv)


def m_stencils(rep):
    for strict in (True, False):
        def args():
            d = dict(Vxy=Ptr(mat2("Vxy", 3, False)), bary_to_xy1=Ptr(out("bary_to_xy1", 9)), xy1_to_bary=Ptr(out("xy1_to_bary", 9)), edge_eq=Ptr(out("edge_eq", 9)), strict_edge=strict, x_min=ref("x_min"), x_max=ref("x_max"))
            for n in ("y_begin", "y_end", "left_edge_id", "right_edge_id"):
                d[n] = Ptr(Obj(n, [2], None, "int"))
            return d

        def post(I, a, ctx, r):
            for n in ("x_min", "x_max"):
                ctx.require("memory: the columns of the triangle are short integers", between_(I.load(a[n]), -INTMAX, INTMAX))
            for k in range(2):
                for n in ("y_begin", "y_end"):
                    ctx.require("memory: the rows of the parts are short integers", between_(rd(I, a[n], k), -INTMAX - 1, INTMAX + 1))
                for n in ("left_edge_id", "right_edge_id"):
                    ctx.require("memory: edges have numbers from 0 to 2", between_(rd(I, a[n], k), 0, 2))
        MJob(rep, "get_triangle_stencil_equations", args, base, post, title=f"strict_edge={strict}")

    def args():
        return dict(Vxy=Ptr(mat2("Vxy", 2, False)), height=H, width=W, sigma=FLOAT, xy1_to_bary=Ptr(out("xy1_to_bary", 6)), xy1_to_transp=Ptr(out("xy1_to_transp", 3)),
                    ineq=Ptr(out("ineq", 12)), y_begin=ref("y_begin"), y_end=ref("y_end"), clockwise=boolvar("clockwise"))

    def post(I, a, ctx, r):
        ctx.require("memory: the rows of the edge are rows of the image", band(cmp(">=", I.load(a["y_begin"]), 0), cmp("<=", I.load(a["y_begin"]), 32767), cmp("<=", I.load(a["y_end"]), H - 1), cmp(">=", I.load(a["y_end"]), -32767)))
    MJob(rep, "get_edge_stencil_equations", args, base, post)


def m_bilinear(rep):
    def p(ctx):
        base(ctx)
        base_tex(ctx)

    def args(back):
        def a():
            d = dict(A=Ptr(chan("A")), I=Ptr(texture("Texture")), I_size=Ptr(tsize()), p=Ptr(vec("p", 2)), sizeA=C)
            if back:
                del d["A"]
                d.update(A_B=Ptr(chan("A_B")), I_B=Ptr(texture("Texture_B")), p_B=Ptr(vec("p_B", 2)))
            return d
        return a
    MJob(rep, "bilinear_sample", lambda: {**args(False)()}, p)
    MJob(rep, "bilinear_sample_B", lambda: {**args(True)(), "A": Ptr(chan("A"))}, p)


def pre_ty(ctx):
    base(ctx)
    base_tex(ctx)


def m_parts(rep, kind):
    for back in (False, True):
        def args():
            d = part_args(kind_args(kind, back))()
            d.update(strict_edge=boolvar("strict_edge"), perspective_correct=boolvar("persp"))
            return d

        def pre(ctx):
            pre_ty(ctx)
            for n in ("y_begin", "y_end"):
                ctx.assume(between_(var(n, "I"), -INTMAX - 1, INTMAX + 1))
            for n in ("x_min", "x_max"):
                ctx.assume(between_(var(n, "I"), -INTMAX, INTMAX))
        MJob(rep, f"render_part_{kind}" + ("_B" if back else ""), args, pre)


def same_arg(I, a, want):
    bad = [n for n, v in want.items() if n in a and not (isinstance(a[n], Ptr) and a[n].obj.name == v and a[n].off.const() == 0 if isinstance(v, str) else equal(P.of(a[n]), v))]
    I.ctx.report.add(I.ctx.name + ": memory: the parts are drawn in the arrays of the caller", not bad, "path exploration", detail=str(bad))


def s_part(I, args, f):
    a = argmap(f, args)
    if I.tolerant:
        return
    same_arg(I, a, dict(image="image", image_B="image_B", z_buffer="z_buffer", width=W, height=H, sizeA=C, Texture="Texture", Texture_B="Texture_B"))
    if "Texture_size" in a:
        I.ctx.require("memory: textures are sampled with their own size", band(cmp("==", rd(I, a["Texture_size"], 0), TW), cmp("==", rd(I, a["Texture_size"], 1), TH)))
    for n, m in (("y_begin", INTMAX + 1), ("y_end", INTMAX + 1), ("x_min", INTMAX), ("x_max", INTMAX)):
        I.ctx.require("memory: the ranges given to the parts are short integers", between_(P.of(a[n]), -m, m))
    for n, l in (("left_eq", 3), ("right_eq", 3), ("xy1_to_Z", 3), ("xy1_to_UV", 6), ("xy1_to_L", 3), ("xy1_to_UV_B", 6), ("xy1_to_L_B", 3)):
        if n in a and isinstance(a[n], Ptr):
            rd(I, a[n], 0), rd(I, a[n], l - 1)
    for n in ("xy1_to_A", "xy1_to_A_B"):
        if n in a and isinstance(a[n], Ptr):
            o, t = a[n], P.of(1)
            for x in o.obj.dims:
                t = t * x
            I.ctx.require("memory: the attributes have 3 coefficients for each channel", band(cmp(">=", o.off, 0), cmp("<=", o.off + C * 3, t)))


PARTS = {f"render_part_{k}{b}": s_part for k in ("interpolated", "textured_gouraud") for b in ("", "_B")}


def m_triangle(rep, kind):
    for back in (False, True):
        def args():
            d = {k: v for k, v in tri_args(kind, True, False, back)().items()}
            d.update(strict_edge=boolvar("strict_edge"), perspective_correct=boolvar("persp"))
            return d
        SAFE.update(PARTS)
        MJob(rep, f"rasterize_triangle_{kind}" + ("_B" if back else ""), args, pre_ty)


def m_edge(rep, kind, error):
    for back in (False, True):
        def args():
            d = {k: v for k, v in edge_args(kind, error, True, False, back)().items()}
            d.update(clockwise=boolvar("clockwise"), perspective_correct=boolvar("persp"))
            return d
        MJob(rep, f"rasterize_edge_{kind}" + ("_error" if error else "") + ("_B" if back else ""), args, pre_ty)


# ------------------------------------------------------------------ scenes

def s_check(I, args, f):
    """checkSceneValid returned: every index of the scene is valid (v_check, for any triangle)."""
    I.checked = args[1] if len(args) > 1 else False


def s_raster(name):
    """What the drawing functions assume about their arrays (m_triangle, m_edge)."""
    nv, err = RASTER[name[:-2] if name.endswith("_B") else name]

    def h(I, args, f):
        a = argmap(f, args)
        if I.tolerant:
            return
        names = dict(z_buffer="z_buffer", height=H, width=W, sizeA=C, Texture="Texture", Texture_B="Texture_B", err_buffer="err_buffer", err_buffer_B="err_buffer_b", image="obs" if err else "image")
        if not err and not (name.endswith("_B") and I.job_args.get("antialiaseError")):
            names["image_B"] = "image_b"
        same_arg(I, a, names)
        if "image_B" in a and "image_B" not in names:
            o, t = a["image_B"], P.of(1)
            for x in o.obj.dims:
                t = t * x
            I.ctx.require("memory: the adjoint image has the size of the image", band(cmp("==", o.off, 0), cmp("==", t, H * W * C)))
        if "Texture_size" in a:
            I.ctx.require("memory: textures are sampled with their own size", band(cmp("==", rd(I, a["Texture_size"], 0), TW), cmp("==", rd(I, a["Texture_size"], 1), TH)))
        for n in ("Vxy", "Vxy_B", "UVvertex", "UVvertex_B"):
            if n in a:
                rd(I, a[n], 0), rd(I, a[n], 2 * nv - 1)
        for n in ("Zvertex", "ShadeVertex", "ShadeVertex_B"):
            if n in a:
                rd(I, a[n], 0), rd(I, a[n], nv - 1)
        for n in ("Avertex", "Avertex_B"):
            if n in a:
                for j in range(nv):
                    p = rd(I, a[n], j)
                    t = P.of(1)
                    for x in p.obj.dims:
                        t = t * x
                    I.ctx.require("memory: the colours of a vertex are inside the array of colours", band(cmp(">=", p.off, 0), cmp("<=", p.off + C, t)))
    return h


def s_sort(I, args, f):
    """The sorted list holds the numbers of the triangles (h_sort: element k of the list is triangle k
    before the sort), in some order: any element is one of them."""
    o = args[0].obj
    I.store[o] = {"#stale": True}

    def known(obj, key, v):
        if obj == o and key[-1] == "index":
            I.ctx.assume(band(cmp(">=", v, 0), cmp("<", v, NT)))
    I.on_unknown = known


class SceneJob(MJob):
    def interp(self):
        I = super().interp()
        I.dims = SDIMS
        return I


def safe_scene_fields(err, der):
    def index(n, bound):
        def init(t, i):
            x = app(n, t, i, sort="I")
            I = HOLD.get("I")
            if I is not None and getattr(I, "checked", None) is not None:
                I.ctx.assume(band(cmp(">=", x, 0), cmp("<", x, bound)))
            return x
        return Ptr(Obj(n, [NT, 3], init, elem="unsigned int", writable=False))
    f = scene_fields("image", boolvar("perspective_correct"), boolvar("strict_edge"), {})
    f["faces"], f["faces_uv"] = index("faces", NV), index("faces_uv", NUV)
    f["edgeflags"] = Ptr(Obj("edgeflags", [NT, 3], lambda t, i: bapp("edgeflags", t, i), elem="bool", writable=False))
    for n in ("textured", "shaded"):
        f[n] = Ptr(Obj(n, [NT], lambda t, n=n: bapp(n, t), elem="bool", writable=False))
    return f


HOLD = {}


def m_scene(rep, back, err, bg="image"):
    def args():
        f = safe_scene_fields(err, back)
        if bg == "color":
            f["background_image"], f["background_color"] = NULL, Ptr(Obj("background_color", [C], lambda k: FLOAT, writable=False))

        def sc(I):
            HOLD["I"] = I
            o, cells = scene_obj(f)
            I.store[o] = dict(cells)
            return LV(o, 0, (), "Scene")
        d = dict(scene=sc, image=Ptr(image("image")), z_buffer=Ptr(plane("z_buffer")), sigma=FLOAT, antialiaseError=err,
                 obs=Ptr(Obj("obs", [H, W, C], lambda y, x, k: FLOAT, writable=False)) if err else NULL, err_buffer=Ptr(plane("err_buffer")) if err else NULL)
        if back:
            d.update(image_b=NULL if err else Ptr(image("image_b")), err_buffer_b=Ptr(plane("err_buffer_b")) if err else NULL)
        return d

    def pre(ctx):
        base(ctx)
        base_tex(ctx)
        for x in (NT, NV, NUV):
            ctx.assume(band(cmp(">=", x, 1), cmp("<=", x, 2 ** 24)))
    c = dict(SAFE)
    c.update({n + s: s_raster(n + s) for n in RASTER for s in ("", "_B")})
    c.update({"checkSceneValid": s_check, "#sort": s_sort})
    saved = dict(SAFE)
    SAFE.update(c)
    try:
        SceneJob(rep, "renderScene" + ("_B" if back else ""), args, pre, title=f"{'error' if err else 'image'} mode, background {bg}")
    finally:
        SAFE.clear()
        SAFE.update(saved)
