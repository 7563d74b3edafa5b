"""Contracts of the four rasterize_triangle functions, on top of the contracts of the stencil,
of the parts and of the inverse of a 3x3 matrix."""
from .ctri import *
from .cspecs import c_inv, c_inv_B
from .loops import eps


def verts(n=3, name="Vxy"):
    return [[var(f"{name}[{v}][{d}]") for d in range(2)] for v in range(n)]


def fill_atom(V, strict):
    """The triangle V covers the ghost pixel (meaning: postcondition of get_triangle_stencil_equations)."""
    return ("b", atom("fn", "Fill" + ("_strict" if strict else ""), tuple(x for v in V for x in v) + (gx, gy), "B"))


def bary_rows(V):
    """xy1_to_bary: inverse of the matrix of the homogeneous vertices."""
    return inv3([V[v][d] for d in range(2) for v in range(3)] + [P.of(1)] * 3)


class Stencil:
    pass


def c_stencil(I, args, f):
    a = argmap(f, args)
    ctx = I.ctx
    V = [[rd(I, a["Vxy"], 2 * v + d) for d in range(2)] for v in range(3)]
    st = Stencil()
    st.V, st.strict = V, a["strict_edge"]
    ctx.require("the stencil is that of the triangle of the caller", band(*[cmp("==", x, y) for v, w in zip(V, verts()) for x, y in zip(v, w)]))
    ctx.require("the stencil uses the edge rule of the caller", st.strict in (True, False) and (st.strict == I.job_strict))
    M = [V[v][d] for d in range(2) for v in range(3)] + [P.of(1)] * 3
    for k, t in enumerate(inv3(M)):
        wr(I, a["bary_to_xy1"], k, M[k])
        wr(I, a["xy1_to_bary"], k, t)
    for i in range(3):
        for j in range(3):
            wr(I, a["edge_eq"], 3 * i + j, ctx.fresh(f"edge_eq[{i}][{j}]"))
    st.edges = a["edge_eq"]
    st.x = []
    for n in ("x_min", "x_max"):
        st.x.append(ctx.fresh(n, "I"))
        ctx.assume(band(cmp(">=", st.x[-1], -INTMAX), cmp("<=", st.x[-1], INTMAX)))
        I.setlv(a[n], st.x[-1])
    st.part = []
    for k in range(2):
        p = {}
        for n in ("y_begin", "y_end", "left_edge_id", "right_edge_id"):
            p[n] = ctx.fresh(f"{n}[{k}]", "I")
            if n[0] == "y":
                ctx.assume(band(cmp(">=", p[n], -INTMAX - 1), cmp("<=", p[n], INTMAX + 1)))
            wr(I, a[n], k, p[n])
        for n in ("left_edge_id", "right_edge_id"):
            ctx.assume(band(cmp(">=", p[n], 0), cmp("<=", p[n], 2)))
        p["cov"] = ("b", atom("var", f"covered by the part {k}", (), "B"))
        st.part.append(p)
    c0, c1 = st.part[0]["cov"], st.part[1]["cov"]
    ctx.assume(bnot(band(c0, c1)))
    ctx.assume(iff(bor(c0, c1), fill_atom(V, st.strict)))
    I.stencil = st
    I.parts = []


def same_object(I, p, name, off=0):
    return isinstance(p, Ptr) and p.obj.name == name and equal(p.off, off)


def check_part(I, a, kind, back):
    """The arguments of a part are those of the stencil; returns its coverage."""
    ctx = I.ctx
    st = getattr(I, "stencil", None)
    n = "a part is drawn in the images of the caller, with its sizes"
    ok = st is not None and same_object(I, a["image"], "image") and same_object(I, a["z_buffer"], "z_buffer") and (not back or same_object(I, a["image_B"], "image_B"))
    ok = ok and equal(a["width"], W) and equal(a["height"], H) and equal(a["sizeA"], C)
    if kind != "interpolated":
        ok = ok and same_object(I, a["Texture"], "Texture") and (not back or same_object(I, a["Texture_B"], "Texture_B")) and equal(rd(I, a["Texture_size"], 0), TW) and equal(rd(I, a["Texture_size"], 1), TH)
    ctx.report.add(ctx.name + ": " + n, bool(ok), "path exploration")
    k = [k for k in range(2) if st and equal(a["y_begin"], st.part[k]["y_begin"])]
    ok = False
    if len(k) == 1:
        p = st.part[k[0]]
        ok = equal(a["y_end"], p["y_end"]) and equal(a["x_min"], st.x[0]) and equal(a["x_max"], st.x[1]) and a["strict_edge"] == st.strict
        for n, e in (("left_eq", "left_edge_id"), ("right_eq", "right_edge_id")):
            q = a[n]
            ok = ok and isinstance(q, Ptr) and q.obj == st.edges.obj and equal(q.off, st.edges.off + 3 * p[e])
        ok = ok and k[0] not in I.parts
        I.parts.append(k[0])
    ctx.report.add(ctx.name + ": a part is drawn once, with the rows and the edges of the stencil", bool(ok), "path exploration")
    if not ok:
        raise Unsupported("a part that is not in the stencil")
    return p["cov"]


def c_part(kind):
    def h(I, args, f):
        a = argmap(f, args)
        cov = check_part(I, a, kind, False)
        persp = I.ctx.branch(a["perspective_correct"])
        z, c = part_forward(I, a, kind, a["strict_edge"], persp, cov)
        I.setlv(LV(a["z_buffer"].obj, gy * W + gx, (), "double"), z)
        I.setlv(LV(a["image"].obj, (gy * W + gx) * C + gk, (), "double"), c)
    return h


def c_part_B(kind):
    def h(I, args, f):
        a = argmap(f, args)
        cov = check_part(I, a, kind, True)
        I.ctx.require("perspective_correct is refused before the parts", bnot(a["perspective_correct"]))
        part_backward(I, a, kind, cov)
    return h


def tri_args(kind, strict, persp, back=False):
    def args():
        d = dict(Vxy=Ptr(mat2("Vxy", 3, False)), Zvertex=Ptr(vec("Zvertex", 3, False)), z_buffer=Ptr(plane("z_buffer", not back)), image=Ptr(image("image", not back)),
                 height=H, width=W, sizeA=C, strict_edge=strict, perspective_correct=persp)
        if kind == "interpolated":
            d["Avertex"] = Ptr(attr("A", 3, False))
        else:
            d.update(UVvertex=Ptr(mat2("UV", 3, False)), ShadeVertex=Ptr(vec("S", 3, False)), Texture=Ptr(texture("Texture", False)), Texture_size=Ptr(tsize()))
        if back:
            d.update(Vxy_B=Ptr(mat2("Vxy_B", 3)), image_B=Ptr(image("image_B")))
            if kind == "interpolated":
                d["Avertex_B"] = Ptr(attr("A_B", 3))
            else:
                d.update(UVvertex_B=Ptr(mat2("UV_B", 3)), ShadeVertex_B=Ptr(vec("S_B", 3)), Texture_B=Ptr(texture("Texture_B")))
        return d
    return args


def tri_pre(persp):
    def pre(ctx):
        base(ctx)
        base_tex(ctx)
        if persp:
            for k in range(3):
                ctx.assume(cmp(">", var(f"Zvertex[{k}]"), 0))
    return pre


def tri_color(kind, persp):
    """(depth, colour of channel g_k) of the triangle at the ghost pixel, from the vertices."""
    V = verts()
    T = bary_rows(V)
    lam = [sum((T[3 * k + j] * PIX[j] for j in range(3)), P.of(0)) for k in range(3)]
    z = [var(f"Zvertex[{k}]") for k in range(3)]
    w = [1 / z[k] if persp else P.of(1) for k in range(3)]
    Z = 1 / sum((lam[k] * w[k] for k in range(3)), P.of(0)) if persp else sum((lam[k] * z[k] for k in range(3)), P.of(0))
    s = Z if persp else P.of(1)

    def it(vals):
        return sum((lam[k] * w[k] * vals[k] for k in range(3)), P.of(0)) * s
    if kind == "interpolated":
        return Z, it([app(f"A{k}", gk) for k in range(3)])
    uv = [it([var(f"UV[{k}][{i}]") for k in range(3)]) for i in range(2)]
    return Z, tex(*uv) * it([var(f"S[{k}]") for k in range(3)])


RAST = dict(inv_matrix_3x3=c_inv, inv_matrix_3x3_B=c_inv_B, get_triangle_stencil_equations=c_stencil, render_part_interpolated=c_part("interpolated"), render_part_textured_gouraud=c_part("textured_gouraud"),
            render_part_interpolated_B=c_part_B("interpolated"), render_part_textured_gouraud_B=c_part_B("textured_gouraud"))


class RJob(Job):
    strict = False

    def interp(self):
        I = super().interp()
        I.job_strict = self.strict
        return I


def v_triangle(rep, kind):
    for persp in (False, True):
        for strict in (False, True):
            def post(I, a, ctx):
                zf, cf = px(I, a["z_buffer"]), px(I, a["image"], gk)
                ctx.report.add(ctx.name + ": the two parts are drawn", sorted(getattr(I, "parts", [])) == [0, 1], "path exploration")
                wz, wc = app("z_buffer", gy, gx), app("image", gy, gx, gk)
                Z, c = tri_color(kind, persp)
                if ctx.branch(fill_atom(verts(), strict)) and ctx.branch(cmp("<", Z, wz)):
                    wz, wc = Z, c
                ctx.require_equal("the depth buffer keeps the nearest depth of the pixels of the triangle", zf, wz)
                ctx.require_equal("the image gets the attributes interpolated with the barycentric coordinates where the triangle is nearer", cf, wc)
            j = RJob(rep, "rasterize_triangle_" + kind, f"strict_edge={strict}, perspective_correct={persp}", RAST)
            j.strict = strict
            j.run(tri_args(kind, strict, persp), post, tri_pre(persp))


def v_triangle_B(rep, kind):
    for strict in (False, True):
        def state(I, a):
            l = [("the adjoint image", px(I, a["image_B"], gk))]
            l += [(f"Vxy_B[{v}][{d}]", rd(I, a["Vxy_B"], 2 * v + d)) for v in range(3) for d in range(2)]
            if kind == "interpolated":
                l += [(f"Avertex_B[{k}]", I.read(rd(I, a["Avertex_B"], k).obj, (gk,))) for k in range(3)]
            else:
                l += [(f"UVvertex_B[{k}][{i}]", rd(I, a["UVvertex_B"], 2 * k + i)) for k in range(3) for i in range(2)]
                l += [(f"ShadeVertex_B[{k}]", rd(I, a["ShadeVertex_B"], k)) for k in range(3)]
                l += [("Texture_B", I.read(a["Texture_B"].obj, (gty, gtx, gk)))]
            return l

        def post(I, a, ctx):
            got = dict(state(I, a))
            I.store = {}
            want = dict(state(I, a))
            Z, c = tri_color(kind, False)
            if ctx.branch(fill_atom(verts(), strict)) and ctx.branch(cmp("==", Z, app("z_buffer", gy, gx))):
                g = app("image_B", gy, gx, gk)
                want["the adjoint image"] = P.of(0)
                for v in range(3):
                    for d in range(2):
                        want[f"Vxy_B[{v}][{d}]"] += Eyx() * eps("g_k") * g * diff(c, at(var(f"Vxy[{v}][{d}]")))
                    if kind == "interpolated":
                        want[f"Avertex_B[{v}]"] += Eyx() * g * diff(c, at(app(f"A{v}", gk)))
                    else:
                        for i in range(2):
                            want[f"UVvertex_B[{v}][{i}]"] += Eyx() * eps("g_k") * g * diff(c, at(var(f"UV[{v}][{i}]")))
                        want[f"ShadeVertex_B[{v}]"] += Eyx() * eps("g_k") * g * diff(c, at(var(f"S[{v}]")))
                if kind != "interpolated":
                    uv, L = c_parts(c)
                    want["Texture_B"] += Eyx() * g * L * texel_weight(*uv)
            for n in got:
                ctx.require_equal(f"{n} receives the derivative of the pixels drawn by the triangle", z0(got[n]), z0(want[n]))
        j = RJob(rep, f"rasterize_triangle_{kind}_B", f"strict_edge={strict}", RAST)
        j.strict = strict
        j.run(tri_args(kind, strict, False, True), post, tri_pre(False))

    def pre(ctx):
        tri_pre(True)(ctx)
    refuse(rep, f"rasterize_triangle_{kind}_B", tri_args(kind, True, True, True), pre)


def c_parts(c):
    """(uv, shade) of the textured colour tex(uv) * L."""
    for a in c.atoms():
        if a.name == "Tex":
            return a.args[:2], diff(c, a)
    raise Unsupported("textured colour")
