"""Contracts of the antialiased edges: stencil, rows, drawing and their adjoints."""
from .crast import *

SIGMA = var("sigma")


def edge_normal(V, cw):
    """Outward unit normal of the edge V[0] V[1]."""
    s = 1 if cw else -1
    nt = [(V[0][1] - V[1][1]) * s, (V[1][0] - V[0][0]) * s]
    r = 1 / sqrt(nt[0] * nt[0] + nt[1] * nt[1])
    return [nt[0] * r, nt[1] * r]


def edge_matrix(V, n):
    return [V[0][0], V[1][0], n[0], V[0][1], V[1][1], n[1], P.of(1), P.of(1), P.of(0)]


def edge_rows(V, cw, sigma=SIGMA):
    """(xy1_to_bary[6], xy1_to_transp[3]) of an edge."""
    T = inv3(edge_matrix(V, edge_normal(V, cw)))
    return T[:6], [(1 / sigma) * t for t in T[6:]]


def edge_ineq(b, t):
    return list(b) + list(t) + [-t[0], -t[1], 1 - t[2]]


def in_edge(ineq, y, width, x):
    """Pixel x of row y satisfies the four inequalities (meaning: v_edge_xrange)."""
    return ("b", atom("fn", "inedge", tuple(map(P.of, list(ineq) + [y, width, x])), "B"))


def edge_fill(V, cw):
    return in_edge(edge_ineq(*edge_rows(V, cw)), gy, W, gx)


# ------------------------------------------------------------------ the interval of a row

def v_edge_xrange(rep):
    def args():
        X = Obj("x_begin", [], None, "int"), Obj("x_end", [], None, "int")
        return dict(ineq=Ptr(vec("ineq", 12, False)), width=W, y=gy, x_begin=LV(X[0], 0, (), "int"), x_end=LV(X[1], 0, (), "int"))

    def inv(I, n):
        """After n inequalities."""
        b, e = I.load(I.job_args["x_begin"]), I.load(I.job_args["x_end"])
        ins = band(*[cmp(">", lin([var(f"ineq[{3 * k + j}]") for j in range(3)]), 0) for k in range(n)])
        return [("invariant: the range is inside the row", band(cmp(">=", b, 0), bor(cmp("<=", e, W - 1), cmp("<", e, b)))),
                ("invariant: the bounds of the range are near the row", band(cmp("<=", b, W + n * 3), cmp(">=", e, -n * 3 - 1), cmp("<=", e, W + n * 3))),
                ("invariant: the range is made of the pixels that satisfy the inequalities", iff(band(cmp("<=", b, gx), cmp("<=", gx, e)), ins))]

    def post(I, a, ctx):
        b, e = I.load(a["x_begin"]), I.load(a["x_end"])
        ctx.require("the range is inside the row", band(cmp(">=", b, 0), bor(cmp("<=", e, W - 1), cmp("<", e, b))))
        ctx.require("the bounds of the range fit in a short", band(cmp("<=", b, 32766), cmp(">=", e, -32766), cmp("<=", e, 32766)))
        ins = band(*[cmp(">", lin([var(f"ineq[{3 * k + j}]") for j in range(3)]), 0) for k in range(4)])
        ctx.require("the range is made of the pixels that satisfy the inequalities", iff(band(cmp("<=", b, gx), cmp("<=", gx, e)), ins))
    j = Job(rep, "get_edge_xrange_from_ineq", "", EDIV)
    j.cut = inv
    j.run(args, post, base)


def c_ediv(name):
    """Same contract as c_div, for the pixel and for the neighbour of the result."""
    h0 = c_div(name)

    def h(I, args, f):
        r = h0(I, args, f)
        a = argmap(f, args)
        A, b, lo, hi = a["a"], a["b"], a["x_min"], a["x_max"]
        if A is FLOAT or b is FLOAT:
            return r
        ctx = I.ctx
        pos = cmp(">", b, 0)
        if name == "floor_div":
            g = r + 1
            le = bor(band(pos, cmp("<=", g * b, A)), band(bnot(pos), cmp(">=", g * b, A)))
            ctx.assume(bor(cmp("<=", g, lo), cmp(">", g, hi), bnot(le)))
        else:
            g = r - 1
            ge = bor(band(pos, cmp(">=", g * b, A)), band(bnot(pos), cmp("<=", g * b, A)))
            ctx.assume(bor(cmp("<", g, lo), cmp(">=", g, hi), bnot(ge)))
        return r
    return h


EDIV = {n: c_ediv(n) for n in ("floor_div", "ceil_div")}


def c_edge_xrange(I, args, f):
    a = argmap(f, args)
    ctx = I.ctx
    if not I.tolerant:
        ctx.require("the rows of the edges are in the image", band(cmp(">=", a["y"], 0), cmp("<", a["y"], H)))
        ctx.require("the width is that of the image", cmp("==", P.of(a["width"]), W))
    ineq = [rd(I, a["ineq"], k) for k in range(12)]
    b, e = ctx.fresh("x_begin", "I"), ctx.fresh("x_end", "I")
    ctx.assume(band(cmp(">=", b, 0), bor(cmp("<=", e, P.of(a["width"]) - 1), cmp("<", e, b)), cmp("<=", b, 32766), cmp(">=", e, -32766), cmp("<=", e, 32766)))
    r = in_edge(ineq, a["y"], a["width"], gx)
    ctx.assume(iff(band(cmp("<=", b, gx), cmp("<=", gx, e)), r))
    I.setlv(a["x_begin"], b)
    I.setlv(a["x_end"], e)


# ------------------------------------------------------------------ stencil of an edge

def v_edge_stencil(rep):
    V = verts(2)
    for cw in (True, False):
        def args():
            Y = Obj("y_begin", [], None, "int"), Obj("y_end", [], None, "int")
            return dict(Vxy=Ptr(mat2("Vxy", 2, False)), height=H, width=W, sigma=SIGMA, xy1_to_bary=Ptr(out("xy1_to_bary", 6)), xy1_to_transp=Ptr(out("xy1_to_transp", 3)),
                        ineq=Ptr(out("ineq", 12)), y_begin=LV(Y[0], 0, (), "int"), y_end=LV(Y[1], 0, (), "int"), clockwise=cw)

        def pre(ctx):
            base(ctx)
            ctx.assume(cmp(">", SIGMA, 0))

        def post(I, a, ctx):
            b, t = edge_rows(V, cw)
            for k in range(6):
                ctx.require_equal("xy1_to_bary is made of the barycentric rows of the inverse of the edge frame", rd(I, a["xy1_to_bary"], k), b[k])
            for k in range(3):
                ctx.require_equal("xy1_to_transp is the distance to the edge divided by sigma", rd(I, a["xy1_to_transp"], k), t[k])
            for k, w in enumerate(edge_ineq(b, t)):
                ctx.require_equal("the inequalities bound the coordinates of the band of the edge", rd(I, a["ineq"], k), w)
            yb, ye = I.load(a["y_begin"]), I.load(a["y_end"])
            ctx.require("the rows are inside the image", band(cmp(">=", yb, 0), cmp("<=", ye, H - 1)))
            ctx.require("the rows fit in a short", band(cmp("<=", yb, 32767), cmp(">=", ye, -32767)))
            # a pixel of the band: y = b0 y0 + b1 y1 + sigma T n_y with b0 + b1 = 1, 0 < b, 0 < T < 1, |n_y| <= 1
            m = var("b0*y0+b1*y1")
            s = var("sigma*T*n_y")
            y0, y1 = V[0][1], V[1][1]
            ctx.assume(band(bor(cmp("<=", y0, m), cmp("<=", y1, m)), bor(cmp(">=", y0, m), cmp(">=", y1, m))))
            ctx.assume(band(cmp("<", s, SIGMA), cmp(">", s, -SIGMA)))
            ctx.assume(cmp("==", gy, m + s))
            ctx.require("the rows contain the band of the edge", band(cmp("<=", yb, gy), cmp("<=", gy, ye)))
        Job(rep, "get_edge_stencil_equations", f"clockwise={cw}", dict(floor_to_int=c_floor_to_int, inv_matrix_3x3=c_inv)).run(args, post, pre)
    v_edge_band(rep)


def v_edge_band(rep):
    """Lemmas used for the rows of v_edge_stencil, and geometry of the frame of an edge."""
    V = verts(2)
    c = Ctx(rep, "lemma on the band of an edge")
    for cw in (True, False):
        n = edge_normal(V, cw)
        c.report.add(c.name + ": the normal of an edge is a unit vector", equal(n[0] * n[0] + n[1] * n[1], 1), "normal form")
        c.report.add(c.name + ": the normal of an edge is orthogonal to it", equal(n[0] * (V[1][0] - V[0][0]) + n[1] * (V[1][1] - V[0][1]), 0), "normal form")
        # frame * inverse = identity (postcondition of inv_matrix_3x3): the coordinates of the pixel
        S = edge_matrix(V, n)
        co = [var("b0"), var("b1"), var("sT")]
        rows = [sum((S[3 * r + k] * co[k] for k in range(3)), P.of(0)) for r in range(3)]
        c.report.add(c.name + ": coordinates in the frame", equal(rows[1], co[0] * V[0][1] + co[1] * V[1][1] + co[2] * n[1]) and equal(rows[2], co[0] + co[1]), "normal form")
    l = Ctx(rep, "lemma on the band of an edge")
    b0, b1, y0, y1 = (var(x) for x in ("b0", "b1", "y0", "y1"))
    l.assume(band(cmp(">", b0, 0), cmp(">", b1, 0), cmp("==", b0 + b1, 1)))
    m = b0 * y0 + b1 * y1
    l.require("a point between the ends is between their rows", band(bor(cmp("<=", y0, m), cmp("<=", y1, m)), bor(cmp(">=", y0, m), cmp(">=", y1, m))))
    l = Ctx(rep, "lemma on the band of an edge")
    t, n0, n1 = var("T"), var("n0"), var("n1")
    l.assume(band(cmp(">", t, 0), cmp("<", t, 1), cmp(">", SIGMA, 0), cmp("==", n0 * n0 + n1 * n1, 1)))
    l.require("the normal is at most one", band(cmp("<=", n1, 1), cmp(">=", n1, -1)))
    l.assume(band(cmp("<=", n1, 1), cmp(">=", n1, -1)))
    l.require("the offset is smaller than sigma", band(cmp("<", SIGMA * t * n1, SIGMA), cmp(">", SIGMA * t * n1, -SIGMA)))


def same_verts(I, p):
    return band(*[cmp("==", rd(I, p, 2 * v + d), var(f"Vxy[{v}][{d}]")) for v in range(2) for d in range(2)])


def c_edge_stencil(I, args, f):
    a = argmap(f, args)
    ctx = I.ctx
    ctx.require("the edge stencil is that of the edge of the caller, in its image", band(same_verts(I, a["Vxy"]), cmp("==", a["height"], H), cmp("==", a["width"], W), cmp("==", a["sigma"], SIGMA)))
    cw = a["clockwise"]
    ctx.require("the edge stencil has the orientation of the caller", cw in (True, False) and cw == I.job_cw)
    V = [[rd(I, a["Vxy"], 2 * v + d) for d in range(2)] for v in range(2)]
    b, t = edge_rows(V, cw, a["sigma"])
    for k in range(6):
        wr(I, a["xy1_to_bary"], k, b[k])
    for k in range(3):
        wr(I, a["xy1_to_transp"], k, t[k])
    ineq = edge_ineq(b, t)
    for k in range(12):
        wr(I, a["ineq"], k, ineq[k])
    yb, ye = ctx.fresh("y_begin", "I"), ctx.fresh("y_end", "I")
    ctx.assume(band(cmp(">=", yb, 0), cmp("<=", ye, H - 1), cmp("<=", yb, 32767), cmp(">=", ye, -32767)))
    ctx.assume(bor(bnot(in_edge(ineq, gy, W, gx)), band(cmp("<=", yb, gy), cmp("<=", gy, ye))))
    I.setlv(a["y_begin"], yb)
    I.setlv(a["y_end"], ye)


def stencil_adjoint(V, cw, bB, tB):
    """Adjoint of the vertices from the adjoints of the outputs of the stencil: {(v, d): term}."""
    b, t = edge_rows(V, cw)
    res = {}
    for v in range(2):
        for d in range(2):
            x = at(var(f"Vxy[{v}][{d}]"))
            res[v, d] = sum((y * diff(z, x) for y, z in zip(list(bB) + list(tB), list(b) + list(t))), P.of(0))
    return res


def v_edge_stencil_B(rep):
    V = verts(2)
    for cw in (True, False):
        def args():
            return dict(Vxy=Ptr(mat2("Vxy", 2, False)), Vxy_B=Ptr(mat2("Vxy_B", 2)), sigma=SIGMA, xy1_to_bary_B=Ptr(vec("bary_B", 6, False)), xy1_to_transp_B=Ptr(vec("transp_B", 3, False)), clockwise=cw)

        def post(I, a, ctx):
            w = stencil_adjoint(V, cw, [var(f"bary_B[{k}]") for k in range(6)], [var(f"transp_B[{k}]") for k in range(3)])
            for (v, d), x in w.items():
                ctx.require_equal("Vxy_B receives the adjoint of the stencil", rd(I, a["Vxy_B"], 2 * v + d), var(f"Vxy_B[{v}][{d}]") + x)
        # xy1_to_edge is not initialised by the caller: c_inv_B only uses S
        Job(rep, "get_edge_stencil_equations_B", f"clockwise={cw}", dict(inv_matrix_3x3_B=c_inv_B)).run(args, post)


def c_edge_stencil_B(I, args, f):
    a = argmap(f, args)
    ctx = I.ctx
    ctx.require("the adjoint of the stencil is that of the edge of the caller", band(same_verts(I, a["Vxy"]), cmp("==", a["sigma"], SIGMA)))
    ctx.require("the adjoint of the stencil has the orientation of the caller", a["clockwise"] in (True, False) and a["clockwise"] == I.job_cw)
    w = stencil_adjoint(verts(2), a["clockwise"], [rd(I, a["xy1_to_bary_B"], k) for k in range(6)], [rd(I, a["xy1_to_transp_B"], k) for k in range(3)])
    for (v, d), x in w.items():
        wr(I, a["Vxy_B"], 2 * v + d, rd(I, a["Vxy_B"], 2 * v + d) + x)


# ------------------------------------------------------------------ drawing of the edges

EDGE = dict(get_edge_stencil_equations=c_edge_stencil, get_edge_stencil_equations_B=c_edge_stencil_B, get_edge_xrange_from_ineq=c_edge_xrange, bilinear_sample=c_bilinear, bilinear_sample_B=c_bilinear_B)


def edge_args(kind, error, cw, persp, back=False):
    def args():
        d = dict(Vxy=Ptr(mat2("Vxy", 2, False)), Zvertex=Ptr(vec("Zvertex", 2, False)), z_buffer=Ptr(plane("z_buffer", False)), image=Ptr(image("image", not error)),
                 height=H, width=W, sizeA=C, sigma=SIGMA, clockwise=cw, perspective_correct=persp)
        if error:
            d["err_buffer"] = Ptr(plane("err_buffer"))
        if kind == "interpolated":
            d["Avertex"] = Ptr(attr("A", 2, False))
        else:
            d.update(UVvertex=Ptr(mat2("UV", 2, False)), ShadeVertex=Ptr(vec("S", 2, False)), Texture=Ptr(texture("Texture", False)), Texture_size=Ptr(tsize()))
        if back:
            d["Vxy_B"] = Ptr(mat2("Vxy_B", 2))
            d["err_buffer_B" if error else "image_B"] = Ptr(plane("err_buffer_B") if error else image("image_B"))
            if kind == "interpolated":
                d["Avertex_B"] = Ptr(attr("A_B", 2))
            else:
                d.update(UVvertex_B=Ptr(mat2("UV_B", 2)), ShadeVertex_B=Ptr(vec("S_B", 2)), Texture_B=Ptr(texture("Texture_B")))
        return d
    return args


def edge_pre(persp):
    def pre(ctx):
        base(ctx)
        base_tex(ctx)
        ctx.assume(cmp(">", SIGMA, 0))
        if persp:
            for k in range(2):
                ctx.assume(cmp(">", var(f"Zvertex[{k}]"), 0))
    return pre


def edge_color(kind, persp, cw):
    """(depth, opacity complement T, colour) of the edge at the ghost pixel, from its vertices."""
    b, t = edge_rows(verts(2), cw)
    lam = [lin(b[3 * k:3 * k + 3]) for k in range(2)]
    T = lin(t)
    z = [var(f"Zvertex[{k}]") for k in range(2)]
    w = [1 / z[k] if persp else P.of(1) for k in range(2)]
    Z = 1 / (lam[0] * w[0] + lam[1] * w[1]) if persp else lam[0] * z[0] + lam[1] * z[1]
    s = Z if persp else P.of(1)

    def it(vals):
        return (lam[0] * w[0] * vals[0] + lam[1] * w[1] * vals[1]) * s
    if kind == "interpolated":
        return Z, T, it([app(f"A{k}", gk) for k in range(2)])
    uv = [it([var(f"UV[{k}][{i}]") for k in range(2)]) for i in range(2)]
    return Z, T, tex(*uv) * it([var(f"S[{k}]") for k in range(2)])


class EJob(Job):
    cw = True

    def interp(self):
        I = super().interp()
        I.job_cw = self.cw
        return I


def v_edge(rep, kind, error):
    name = f"rasterize_edge_{kind}" + ("_error" if error else "")
    for persp in (False, True):
        for cw in (True, False):
            def post(I, a, ctx):
                Z, T, c = edge_color(kind, persp, cw)
                cov = ctx.branch(edge_fill(verts(2), cw)) and ctx.branch(cmp("<", Z, app("z_buffer", gy, gx)))
                im = app("image", gy, gx, gk)
                if error:
                    want = app("err_buffer", gy, gx)
                    if cov:
                        want = want * T + (1 - T) * eps("g_k") * (c - im) * (c - im)
                    ctx.require_equal("the error is blended with the error of the extended attributes of the edge", z0(px(I, a["err_buffer"])), want)
                    return
                want = im * T + (1 - T) * c if cov else im
                ctx.require_equal("the image is blended with the extended attributes of the edge", px(I, a["image"], gk), want)
            j = EJob(rep, name, f"clockwise={cw}, perspective_correct={persp}", EDGE)
            j.cw = cw
            j.run(edge_args(kind, error, cw, persp), post, edge_pre(persp))


def v_edge_B(rep, kind, error):
    name = f"rasterize_edge_{kind}" + ("_error" if error else "") + "_B"
    for cw in (True, False):
        def state(I, a):
            l = [("the adjoint buffer", px(I, a["err_buffer_B"]) if error else px(I, a["image_B"], gk)), ("the restored buffer", px(I, a["err_buffer"]) if error else px(I, a["image"], gk))]
            l += [(f"Vxy_B[{v}][{d}]", rd(I, a["Vxy_B"], 2 * v + d)) for v in range(2) for d in range(2)]
            if kind == "interpolated":
                l += [(f"Avertex_B[{k}]", I.read(rd(I, a["Avertex_B"], k).obj, (gk,))) for k in range(2)]
            else:
                l += [(f"UVvertex_B[{k}][{i}]", rd(I, a["UVvertex_B"], 2 * k + i)) for k in range(2) for i in range(2)]
                l += [(f"ShadeVertex_B[{k}]", rd(I, a["ShadeVertex_B"], k)) for k in range(2)]
                l += [("Texture_B", I.read(a["Texture_B"].obj, (gty, gtx, gk)))]
            return l

        def post(I, a, ctx):
            got = dict(state(I, a))
            I.store = {}
            want = dict(state(I, a))
            known = {}
            Z, T, c = edge_color(kind, False, cw)
            if ctx.branch(edge_fill(verts(2), cw)) and ctx.branch(cmp("<", Z, app("z_buffer", gy, gx))):
                ek = eps("g_k")
                im = app("image", gy, gx, gk)
                g = app("err_buffer_B", gy, gx) if error else app("image_B", gy, gx, gk)
                before = var("before")
                if error:
                    e = ek * (c - im) * (c - im)
                    F = before * T + (1 - T) * e
                    val = (app("err_buffer", gy, gx) - (1 - T) * e) / T
                else:
                    F = before * T + (1 - T) * c
                    val = (im - (1 - T) * c) / T
                b = at(before)

                def D(x, sums=1):
                    return (Eyx() * g * diff(F, at(x))).subst(lambda y: val if y is b else None) * sums
                ch = P.of(1) if error else ek
                want["the restored buffer"] = val
                want["the adjoint buffer"] = g * T
                for v in range(2):
                    for d in range(2):
                        want[f"Vxy_B[{v}][{d}]"] += D(var(f"Vxy[{v}][{d}]"), ch)
                    if kind == "interpolated":
                        x = D(app(f"A{v}", gk))
                        want[f"Avertex_B[{v}]"] += no_k(x)
                    else:
                        for i in range(2):
                            want[f"UVvertex_B[{v}][{i}]"] += D(var(f"UV[{v}][{i}]"), ch)
                        want[f"ShadeVertex_B[{v}]"] += D(var(f"S[{v}]"), ch)
                if kind != "interpolated":
                    uv, L = c_parts(c)
                    dc = 2 * (c - im) * (1 - T) if error else 1 - T
                    want["Texture_B"] += Eyx() * g * dc * L * texel_weight(*uv)
                if error and kind == "interpolated":
                    known = kf1(cw, want, Eyx() * g * 2 * (c - im) * (1 - T), ek)
            for n in got:
                ok = n in known and not equal(z0(got[n]), z0(want[n])) and equal(z0(got[n]), z0(known[n]))
                if ok:
                    ctx.report.known.setdefault("KF1", set()).add(ctx.name + ": " + n)
                    continue
                ctx.require_equal(f"{n} receives the derivative of the blended pixels", z0(got[n]), z0(want[n]))
        j = EJob(rep, name, f"clockwise={cw}", EDGE)
        j.cw = cw
        j.run(edge_args(kind, error, cw, False, True), post, edge_pre(False))

    def pre(ctx):
        edge_pre(True)(ctx)
    refuse(rep, name, edge_args(kind, error, True, True, True), pre)


def no_k(p):
    """Derivative of a sum over the channels with respect to the ghost channel."""
    return p.subst(lambda a: P.of(1) if a.name == "eps_g_k" else None)


def kf1(cw, want, aB, ek):
    """Known finding KF1: the terms of A0y_B (row and constant parts of the attributes) are lost."""
    out = dict(want)
    b, _ = edge_rows(verts(2), cw)
    for k in range(2):
        out[f"Avertex_B[{k}]"] = out[f"Avertex_B[{k}]"] - aB * (b[3 * k + 1] * gy + b[3 * k + 2])
    for v in range(2):
        for d in range(2):
            x = at(var(f"Vxy[{v}][{d}]"))
            for k in range(2):
                out[f"Vxy_B[{v}][{d}]"] = out[f"Vxy_B[{v}][{d}]"] - ek * aB * app(f"A{k}", gk) * (diff(b[3 * k + 1], x) * gy + diff(b[3 * k + 2], x))
    return out
