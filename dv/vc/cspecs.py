"""Contracts of the C++ functions of the current header, and their verification.

Every function is executed symbolically from the clang AST (cxx.py) with its callees replaced
by their contracts; the postcondition of the function is then an obligation on every path.

Ghost coordinates: the pixel (g_y, g_x), the colour channel g_k and the texel (g_ty, g_tx)
are arbitrary but fixed, so a postcondition at these coordinates holds at all of them.
Sums over pixels or channels (adjoints) are written with the linear operators
eps_g_y, eps_g_x, eps_g_k (see loops.py).
"""
import functools
from fractions import Fraction
from .term import P, atom, var, app, cmp, band, bor, bnot, floor, ceil, sqrt, equal, diff, DERIV
from .ctx import Ctx, Report, Unsupported, Infeasible
from .cxx import Interp, Obj, Ptr, LV, NULL, Throw, load, FLOAT, qt, is_ref
from .loops import eps, ZERO

H, W, C = var("H", "I"), var("W", "I"), var("C", "I")
TH, TW = var("TH", "I"), var("TW", "I")
gy, gx, gk = var("g_y", "I"), var("g_x", "I"), var("g_k", "I")
gty, gtx = var("g_ty", "I"), var("g_tx", "I")
DIMS = {"H": (0, gy), "W": (1, gx), "TH": (0, gty), "TW": (1, gtx), "C": (2, gk)}
PIX = (gx, gy, P.of(1))
MAXDIM = 32700
MAXCHAN = 10922

_prog = []


def prog():
    if not _prog:
        _prog.append(load())
    return _prog[0]


def at(p):
    (k, _), = p.m.items()
    return k[0][0]


class Job:
    """Verification of one function in one configuration."""

    def __init__(self, report, fname, title, contracts=None, mode="real", nparams=None):
        self.report, self.fname, self.title = report, fname, title
        self.f = prog().fn(fname, nparams)
        self.ctx = Ctx(report, f"{fname}{' (' + title + ')' if title else ''}")
        self.contracts = contracts or {}
        self.mode = mode

    def interp(self):
        I = Interp(prog(), self.ctx, self.mode, self.contracts, DIMS)
        I.check_casts = self.mode == "real"
        return I

    def run(self, args, post, pre=None, throws=None):
        """args: dict name -> value (or function of I).  post(I, args, ctx) emits the obligations."""
        state = dict(paths=0)

        def once(ctx):
            I = self.interp()
            self.I = I
            if pre:
                pre(ctx)
            a = {k: (v(I) if callable(v) else v) for k, v in args().items()}
            I.job_args = a
            I.cut = getattr(self, "cut", None)
            l = []
            for p in self.f.params:
                n = p.get("name", "")
                if n not in a:
                    raise Unsupported(f"{self.fname} has a new parameter {n}")
                l.append(a[n])
            try:
                r = I.call(self.f, l)
            except Throw:
                if throws is None:
                    ctx.report.fail(self.ctx.name + ": no exception is thrown", str(ctx.pc)[:500])
                else:
                    throws(I, a, ctx)
                state["paths"] += 1
                return
            state["paths"] += 1
            post(I, a, ctx, r) if post.__code__.co_argcount > 3 else post(I, a, ctx)

        try:
            self.ctx.explore(once)
            self.report.add(self.ctx.name + ": the body satisfies some input", state["paths"] > 0, "path exploration")
            self.report.functions[self.fname] = "verified against its contract"
        except Unsupported as e:
            self.report.fail(self.ctx.name + ": within the subset of the generator", str(e))
        except RecursionError as e:
            self.report.fail(self.ctx.name + ": within the subset of the generator", "recursion")
        return self


def argmap(f, args):
    return {p.get("name", ""): a for p, a in zip(f.params, args)}


def base(ctx):
    for d in (H, W, C):
        ctx.assume(band(cmp(">=", d, 1), cmp("<=", d, MAXCHAN if d is C else MAXDIM)))
    for g, d in ((gy, H), (gx, W), (gk, C)):
        ctx.assume(band(cmp(">=", g, 0), cmp("<", g, d)))


def base_tex(ctx):
    for g, d in ((gty, TH), (gtx, TW)):
        ctx.assume(band(cmp(">=", d, 1), cmp("<=", d, MAXDIM)))
        ctx.assume(band(cmp(">=", g, 0), cmp("<", g, d)))


# ------------------------------------------------------------------ objects

def vec(name, n, writable=True, init=None):
    return Obj(name, [n], init or (lambda k: var(f"{name}[{k}]")), writable=writable)


def out(name, n):
    return Obj(name, [n], None)


def mat2(name, n, writable=True):
    """double name[n][2]"""
    return Obj(name, [n, 2], lambda v, d: var(f"{name}[{v}][{d}]"), writable=writable)


def image(name, writable=True):
    return Obj(name, [H, W, C], lambda y, x, k: app(name, y, x, k), ghosts=[gy, gx, gk], writable=writable)


def plane(name, writable=True):
    return Obj(name, [H, W], lambda y, x: app(name, y, x), ghosts=[gy, gx], writable=writable)


def chan(name, writable=True):
    return Obj(name, [C], lambda k: app(name, k), ghosts=[gk], writable=writable)


def attr(name, n, writable=True):
    """T *name[n]: n pointers to vectors of C channels."""
    return Obj(name, [n], lambda k: Ptr(chan(f"{name}{k}", writable)), elem="double *", writable=False)


def attr3(name):
    """double name[3*C]"""
    return Obj(name, [C, 3], lambda k, j: app(f"{name}{j}", k), ghosts=[gk, None])


def texture(name, writable=True):
    return Obj(name, [TH, TW, C], lambda y, x, k: app(name, y, x, k), ghosts=[gty, gtx, gk], writable=writable)


def rd(I, p, *idx):
    """Value p[idx] (flat index) of a pointer in the current state."""
    off = p.off + (idx[0] if idx else 0)
    return I.read(p.obj, I.coords(p.obj, off))


def wr(I, p, i, v):
    I.setlv(LV(p.obj, p.off + i, (), p.obj.elem), v)


def px(I, p, k=None):
    """Value at the ghost pixel of an image passed as a pointer."""
    return I.read(p.obj, (gy, gx) if k is None else (gy, gx, k))


def z0(p):
    """The ZERO contribution atom replaced by 0."""
    return p.subst(lambda a: P.of(0) if a.name == "zero_contribution" else None) if isinstance(p, P) else p


def Eyx():
    return eps("g_y") * eps("g_x")


# ------------------------------------------------------------------ inverse of a 3x3 matrix

def inv3(S):
    """The entries of the inverse, as opaque functions of the 9 entries."""
    S = tuple(P.of(s) for s in S)
    return [app(f"Inv3_{i}", *S) for i in range(9)]


def _dinv3(i):
    def f(a, d):
        T = inv3(a.args)
        dS = [d(s) for s in a.args]
        r, c = divmod(i, 3)
        out = P.of(0)
        for p in range(3):
            for q in range(3):
                if dS[3 * p + q].m:
                    out = out - T[3 * r + p] * dS[3 * p + q] * T[3 * q + c]
        return out
    return f


for _i in range(9):
    DERIV[f"Inv3_{_i}"] = _dinv3(_i)


def det3(S):
    return (S[0] * (S[4] * S[8] - S[5] * S[7]) - S[1] * (S[3] * S[8] - S[5] * S[6]) + S[2] * (S[3] * S[7] - S[4] * S[6]))


def v_inv_matrix(rep):
    def args():
        return dict(S=Ptr(vec("S", 9, False)), T=Ptr(out("T", 9)))

    def post(I, a, ctx):
        S = [var(f"S[{k}]") for k in range(9)]
        T = [rd(I, a["T"], k) for k in range(9)]
        for r in range(3):
            for c in range(3):
                ctx.require_equal("T is the inverse of S", sum((T[3 * r + k] * S[3 * k + c] for k in range(3)), P.of(0)), P.of(int(r == c)))
    Job(rep, "inv_matrix_3x3", "").run(args, post)

    def args_B():
        S = vec("S", 9, False)
        return dict(S=Ptr(S), S_B=Ptr(vec("S_B", 9)), T=Ptr(vec("T_unspecified", 9)), T_B=Ptr(vec("T_B", 9)))

    def post_B(I, a, ctx):
        s = [var(f"S[{k}]") for k in range(9)]
        d = det3(s)
        T = [c / d for c in adj3(s)]
        TB = [var(f"T_B[{k}]") for k in range(9)]
        for p in range(3):
            for q in range(3):
                want = var(f"S_B[{3 * p + q}]")
                for r in range(3):
                    for c in range(3):
                        want = want - T[3 * r + p] * TB[3 * r + c] * T[3 * q + c]
                ctx.require_equal("S_B receives the adjoint of the inverse", rd(I, a["S_B"], 3 * p + q), want)
    Job(rep, "inv_matrix_3x3_B", "").run(args_B, post_B)


def adj3(S):
    def co(r, c):
        m = [S[3 * i + j] for i in range(3) for j in range(3) if i != r and j != c]
        return (m[0] * m[3] - m[1] * m[2]) * (1 if (r + c) % 2 == 0 else -1)
    return [co(c, r) for r in range(3) for c in range(3)]


def c_inv(I, args, f):
    a = argmap(f, args)
    S = [rd(I, a["S"], k) for k in range(9)]
    for k, t in enumerate(inv3(S)):
        wr(I, a["T"], k, t)


def c_inv_B(I, args, f):
    a = argmap(f, args)
    S = [rd(I, a["S"], k) for k in range(9)]
    T = inv3(S)
    TB = [rd(I, a["T_B"], k) for k in range(9)]
    for p in range(3):
        for q in range(3):
            v = rd(I, a["S_B"], 3 * p + q)
            for r in range(3):
                for c in range(3):
                    v = v - T[3 * r + p] * TB[3 * r + c] * T[3 * q + c]
            wr(I, a["S_B"], 3 * p + q, v)


# ------------------------------------------------------------------ rows and parts of triangles

def inrow(left, right, y, strict, x_min, x_max, width, x):
    """Pixel x of the row y is between the two edges (see v_get_xrange for its meaning)."""
    return ("b", atom("fn", "inrow" + ("_strict" if strict else ""), tuple(map(P.of, left + right + [y, x_min, x_max, width, x])), "B"))


def c_get_xrange(I, args, f):
    a = argmap(f, args)
    ctx = I.ctx
    left, right = [rd(I, a["left_eq"], k) for k in range(3)], [rd(I, a["right_eq"], k) for k in range(3)]
    if not I.tolerant:
        ctx.require("get_xrange is called with a left edge and a right edge, for a row of the image", band(cmp(">", left[0], 0), cmp("<", right[0], 0), cmp(">=", a["y"], 0), cmp("<", a["y"], H)))
    strict = ctx.branch(a["strict_edge"])
    b, e = ctx.fresh("x_begin", "I"), ctx.fresh("x_end", "I")
    ctx.assume(band(cmp(">=", b, 0), cmp("<=", e, P.of(a["width"]) - 1)))
    ctx.assume(cmp("<=", b, 32766))
    ctx.assume(cmp(">=", e, -32766))
    r = inrow(left, right, a["y"], strict, a["x_min"], a["x_max"], a["width"], gx)
    inside = band(cmp("<=", b, gx), cmp("<=", gx, e))
    ctx.assume(bor(band(inside, r), band(bnot(inside), bnot(r))))
    I.setlv(a["x_begin"], b)
    I.setlv(a["x_end"], e)


def part_args(extra):
    def args():
        d = dict(image=Ptr(image("image")), z_buffer=Ptr(plane("z_buffer")), y_begin=var("y_begin", "I"), y_end=var("y_end", "I"), x_min=var("x_min", "I"), x_max=var("x_max", "I"),
                 xy1_to_Z=Ptr(vec("xy1_to_Z", 3, False)), left_eq=Ptr(vec("left", 3, False)), right_eq=Ptr(vec("right", 3, False)), width=W, height=H, sizeA=C)
        d.update(extra())
        return d
    return args


def part_pre(ctx):
    base(ctx)
    for n in ("y_begin", "y_end", "x_min", "x_max"):
        ctx.assume(band(cmp(">=", var(n, "I"), -32767), cmp("<=", var(n, "I"), 32767)))
    ctx.assume(rows_have_edges(var("y_begin", "I"), var("y_end", "I"), var("left[0]"), var("right[0]")))
    base_tex(ctx)


def rows_have_edges(yb, ye, l0, r0):
    """Precondition of the parts: when the part has rows in the image, its edges are a left and a right edge."""
    return bor(cmp(">", yb, ye), cmp("<", ye, 0), cmp(">", yb, H - 1), band(cmp(">", l0, 0), cmp("<", r0, 0)))


def part_cov(ctx, strict):
    r = inrow([var(f"left[{k}]") for k in range(3)], [var(f"right[{k}]") for k in range(3)], gy, strict, var("x_min", "I"), var("x_max", "I"), W, gx)
    return band(cmp("<=", var("y_begin", "I"), gy), cmp("<=", gy, var("y_end", "I")), r)


def lin(rows, p=PIX):
    return sum((P.of(r) * q for r, q in zip(rows, p)), P.of(0))


def depth_at(I, p, persp):
    z = lin([rd(I, p, k) for k in range(3)])
    return 1 / z if persp else z


def shade_of(I, a, kind, persp, Z):
    """Colour of the channel g_k at the ghost pixel."""
    s = Z if persp else 1
    if kind == "interpolated":
        return lin([rd(I, a["xy1_to_A"], 3 * gk + j) for j in range(3)]) * s
    uv = [lin([rd(I, a["xy1_to_UV"], 3 * i + j) for j in range(3)]) * s for i in range(2)]
    L = lin([rd(I, a["xy1_to_L"], j) for j in range(3)]) * s
    return tex(uv[0], uv[1]) * L


def part_forward(I, a, kind, strict, persp, cov):
    """Contract of render_part_*: effect at the ghost pixel."""
    ctx = I.ctx
    Z = depth_at(I, a["xy1_to_Z"], persp)
    z = px(I, a["z_buffer"])
    if ctx.branch(cov) and ctx.branch(cmp("<", Z, z)):
        c = shade_of(I, a, kind, persp, Z)
        return Z, c
    return z, px(I, a["image"], gk)


def kind_args(kind, back=False):
    def extra():
        if kind == "interpolated":
            d = dict(xy1_to_A=Ptr(attr3("xy1_to_A")))
            if back:
                d["xy1_to_A_B"] = Ptr(attr3("xy1_to_A_B"))
        else:
            d = dict(xy1_to_UV=Ptr(vec("xy1_to_UV", 6, False)), xy1_to_L=Ptr(vec("xy1_to_L", 3, False)), Texture=Ptr(texture("Texture", False)), Texture_size=Ptr(tsize()))
            if back:
                d.update(xy1_to_UV_B=Ptr(vec("xy1_to_UV_B", 6)), xy1_to_L_B=Ptr(vec("xy1_to_L_B", 3)), Texture_B=Ptr(texture("Texture_B")))
        if back:
            d["image_B"] = Ptr(image("image_B"))
        return d
    return extra


def tsize():
    return Obj("Texture_size", [2], lambda k: (TW, TH)[k.const()], elem="int", writable=False)


def tex(u, v, k=gk):
    return app("Tex", u, v, k)


def _dtex(a, d):
    u, v, k = a.args
    return d(u) * app("Tex_u", u, v, k) + d(v) * app("Tex_v", u, v, k)


DERIV["Tex"] = _dtex


def set_ghost(I, p, key, v):
    """The callee rewrote the whole array; only the ghost element is known."""
    I.store[p.obj] = {"#stale": True}
    I.setlv(LV(p.obj, p.off + key, (), p.obj.elem), v)


def c_bilinear(I, args, f):
    a = argmap(f, args)
    check_texture(I, a)
    u, v = rd(I, a["p"], 0), rd(I, a["p"], 1)
    set_ghost(I, a["A"], gk, tex(u, v))


def c_bilinear_B(I, args, f):
    a = argmap(f, args)
    check_texture(I, a)
    u, v = rd(I, a["p"], 0), rd(I, a["p"], 1)
    g = rd(I, a["A_B"], gk)
    for i in range(2):
        wr(I, a["p_B"], i, rd(I, a["p_B"], i) + eps("g_k") * g * app("Tex_" + "uv"[i], u, v, gk))
    o = a["I_B"].obj
    I.ctx.require("the adjoint of the texture is passed to the sampler", o.name == "Texture_B" and a["I_B"].off.const() == 0)
    k = (gty * TW + gtx) * C + gk
    wr(I, a["I_B"], k, rd(I, a["I_B"], k) + g * texel_weight(u, v))


def texel_weight(u, v):
    """Weight of the ghost texel in the sample at (u, v)."""
    return app("Wtexel", u, v, gty, gtx)


def check_texture(I, a):
    o = a["I"].obj
    if not I.tolerant:
        I.ctx.require("the texture is passed to the sampler", o.name == "Texture" and a["I"].off.const() == 0 and equal(a["sizeA"], C) and equal(rd(I, a["I_size"], 0), TW) and equal(rd(I, a["I_size"], 1), TH))


def v_render_part(rep, kind):
    name = "render_part_" + kind
    for persp in (False, True):
        for strict in (False, True):
            ex = kind_args(kind)

            def args():
                d = part_args(ex)()
                d.update(strict_edge=strict, perspective_correct=persp)
                return d

            def post(I, a, ctx):
                zf, cf = px(I, a["z_buffer"]), px(I, a["image"], gk)
                I.store = {}
                wz, wc = part_forward(I, a, kind, strict, persp, part_cov(ctx, strict))
                ctx.require_equal("the depth buffer keeps the nearest depth of the covered pixels", zf, wz)
                ctx.require_equal("the image gets the interpolated attribute where the depth test passes", cf, wc)
            Job(rep, name, f"strict_edge={strict}, perspective_correct={persp}", dict(get_xrange=c_get_xrange, bilinear_sample=c_bilinear)).run(args, post, part_pre)


def part_backward(I, a, kind, cov):
    """Contract of render_part_*_B: the pixels that kept the depth of the triangle give their
    adjoint to the interpolation matrices."""
    ctx = I.ctx
    Z = depth_at(I, a["xy1_to_Z"], False)
    if not (ctx.branch(cov) and ctx.branch(cmp("==", Z, px(I, a["z_buffer"])))):
        return
    g = px(I, a["image_B"], gk)
    if kind == "interpolated":
        for j in range(3):
            wr(I, a["xy1_to_A_B"], 3 * gk + j, rd(I, a["xy1_to_A_B"], 3 * gk + j) + Eyx() * g * PIX[j])
    else:
        uv = [lin([rd(I, a["xy1_to_UV"], 3 * i + j) for j in range(3)]) for i in range(2)]
        L = lin([rd(I, a["xy1_to_L"], j) for j in range(3)])
        for j in range(3):
            for i in range(2):
                wr(I, a["xy1_to_UV_B"], 3 * i + j, rd(I, a["xy1_to_UV_B"], 3 * i + j) + eps("g_k") * Eyx() * g * L * app("Tex_" + "uv"[i], *uv, gk) * PIX[j])
            wr(I, a["xy1_to_L_B"], j, rd(I, a["xy1_to_L_B"], j) + eps("g_k") * Eyx() * g * tex(*uv) * PIX[j])
        k = (gty * TW + gtx) * C + gk
        wr(I, a["Texture_B"], k, rd(I, a["Texture_B"], k) + Eyx() * g * L * texel_weight(*uv))
    I.setlv(LV(a["image_B"].obj, (gy * W + gx) * C + gk, (), "double"), P.of(0))


def v_render_part_B(rep, kind):
    name = "render_part_" + kind + "_B"
    for strict in (False, True):
        ex = kind_args(kind, True)

        def args():
            d = part_args(ex)()
            d.update(strict_edge=strict, perspective_correct=False)
            return d

        def state(I, a):
            l = [("image_B", px(I, a["image_B"], gk)), ("image", px(I, a["image"], gk)), ("z_buffer", px(I, a["z_buffer"]))]
            if kind == "interpolated":
                l += [("xy1_to_A_B", rd(I, a["xy1_to_A_B"], 3 * gk + j)) for j in range(3)]
            else:
                l += [("xy1_to_UV_B", rd(I, a["xy1_to_UV_B"], j)) for j in range(6)] + [("xy1_to_L_B", rd(I, a["xy1_to_L_B"], j)) for j in range(3)]
                l += [("Texture_B", rd(I, a["Texture_B"], (gty * TW + gtx) * C + gk))]
            return l

        def post(I, a, ctx):
            got = state(I, a)
            I.store = {}
            part_backward(I, a, kind, part_cov(ctx, strict))
            for (n, x), (_, y) in zip(got, state(I, a)):
                ctx.require_equal(f"{n} receives the adjoint of the pixels drawn by the triangle", z0(x), z0(y))
        Job(rep, name, f"strict_edge={strict}", dict(get_xrange=c_get_xrange, bilinear_sample=c_bilinear, bilinear_sample_B=c_bilinear_B)).run(args, post, part_pre)

    def args_p():
        d = part_args(kind_args(kind, True))()
        d.update(strict_edge=True, perspective_correct=True)
        return d
    refuse(rep, name, args_p, part_pre)


def refuse(rep, name, args, pre):
    """perspective_correct is refused by the backward functions, before anything is written."""
    n = []
    j = Job(rep, name, "perspective_correct=True")

    def post(I, a, ctx):
        ctx.report.fail(ctx.name + ": perspective_correct is refused", "the function returns")

    def thrown(I, a, ctx):
        ctx.report.add(ctx.name + ": perspective_correct is refused", True, "path exploration")
    j.run(args, post, pre, thrown)
