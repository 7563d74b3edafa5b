"""Contracts of the triangle rasterisation: integer conversions, sorting, row ranges, stencils,
texture sampling and the four rasterize_triangle functions."""
import itertools
from fractions import Fraction
from .cspecs import *
from .cspecs import _dtex

INTMAX = 32766


def iff(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


# ------------------------------------------------------------------ integer conversions

def v_floor_to_int(rep):
    g = var("g", "I")

    def pre(ctx):
        ctx.assume(band(cmp(">", g, -INTMAX), cmp("<=", g, INTMAX)))

    def post(I, a, ctx, r):
        ctx.require("the result is between -32766 and 32766", band(cmp(">=", r, -INTMAX), cmp("<=", r, INTMAX)))
        ctx.require("the result is the floor, saturated", iff(cmp("<=", g, r), cmp("<=", g, a["x"])))
    Job(rep, "floor_to_int", "").run(lambda: dict(x=var("x")), post, pre)


def c_floor_to_int(I, args, f):
    (x,) = args
    r = I.ctx.fresh("fl", "I")
    if x is FLOAT:
        I.ctx.assume(band(cmp(">=", r, -INTMAX), cmp("<=", r, INTMAX)))
        return r
    I.ctx.assume(band(cmp(">=", r, -INTMAX), cmp("<=", r, INTMAX)))
    for g in (gx, gy, -gx, -gy, gx + 1, gy + 1, 1 - gx, 1 - gy):
        I.ctx.assume(iff(cmp("<=", g, r), cmp("<=", g, x)))
    return r


def div_bounds(lo, hi):
    return band(cmp(">=", lo, -1), cmp("<=", lo, 32767), cmp(">=", hi, -32767), cmp("<=", hi, 32765))


def v_div(rep):
    g = var("g", "I")
    lo, hi = var("x_min", "I"), var("x_max", "I")

    def bounds(ctx):
        ctx.assume(div_bounds(lo, hi))
    for name in ("floor_div", "ceil_div"):
        for sign in (1, -1):
            b = var("b")

            def pre(ctx):
                bounds(ctx)
                ctx.assume(cmp(">" if sign > 0 else "<", b, 0))
                ctx.assume(cmp("<=", lo, hi))
                if name == "floor_div":
                    ctx.assume(band(cmp("<", lo, g), cmp("<=", g, hi)))
                else:
                    ctx.assume(band(cmp("<=", lo, g), cmp("<", g, hi)))

            def post(I, a, ctx, r):
                A = a["a"]
                ctx.require("the result is between the bounds", band(cmp(">=", r, lo), cmp("<=", r, hi)))
                le = cmp("<=", g * b, A) if sign > 0 else cmp(">=", g * b, A)
                ge = cmp(">=", g * b, A) if sign > 0 else cmp("<=", g * b, A)
                if name == "floor_div":
                    ctx.require("the result is the clamped floor of the quotient", iff(cmp("<=", g, r), le))
                else:
                    ctx.require("the result is the clamped ceil of the quotient", iff(cmp("<=", r, g), ge))
            Job(rep, name, f"b {'>' if sign > 0 else '<'} 0").run(lambda: dict(a=var("a"), b=b, x_min=lo, x_max=hi), post, pre)
        # crossed bounds
        def pre2(ctx):
            bounds(ctx)
            ctx.assume(cmp(">", lo, hi))
            ctx.assume(cmp("!=", var("b"), 0))

        def post2(I, a, ctx, r):
            ctx.require("the result is between the bounds", band(cmp(">=", r, hi), cmp("<=", r, lo)))
        Job(rep, name, "crossed bounds").run(lambda: dict(a=var("a"), b=var("b"), x_min=lo, x_max=hi), post2, pre2)


def c_div(name):
    def h(I, args, f):
        a = argmap(f, args)
        ctx = I.ctx
        A, b, lo, hi = a["a"], a["b"], a["x_min"], a["x_max"]
        if not I.tolerant:
            ctx.require("divisions have a non zero denominator and bounds inside the image", band(cmp("!=", b, 0) if b is not FLOAT else True, div_bounds(lo, hi)))
        r = ctx.fresh(name, "I")
        ctx.assume(bor(band(cmp("<=", lo, r), cmp("<=", r, hi)), band(cmp("<=", hi, r), cmp("<=", r, lo), cmp(">", lo, hi))))
        if A is FLOAT or b is FLOAT:
            return r
        for g in (gx,):
            pos = cmp(">", b, 0)
            le = bor(band(pos, cmp("<=", g * b, A)), band(bnot(pos), cmp(">=", g * b, A)))
            ge = bor(band(pos, cmp(">=", g * b, A)), band(bnot(pos), cmp("<=", g * b, A)))
            if name == "floor_div":
                ctx.assume(bor(cmp("<=", g, lo), cmp(">", g, hi), iff(cmp("<=", g, r), le)))
            else:
                ctx.assume(bor(cmp("<", g, lo), cmp(">=", g, hi), iff(cmp("<=", r, g), ge)))
        return r
    return h


DIV = {n: c_div(n) for n in ("floor_div", "ceil_div")}


def v_sort3(rep):
    def post(I, a, ctx):
        sv = [rd(I, a["sv"], k) for k in range(3)]
        i = [rd(I, a["i"], k).const() for k in range(3)]
        ctx.require("the values are sorted", band(cmp("<=", sv[0], sv[1]), cmp("<=", sv[1], sv[2])))
        ctx.report.add(ctx.name + ": the indices are a permutation", sorted(i) == [0, 1, 2], "path exploration", detail=str(i))
        for k in range(3):
            ctx.require_equal("the sorted values are those of the indices", sv[k], var(f"v[{i[k]}]"))
    Job(rep, "sort3", "").run(lambda: dict(v=Ptr(vec("v", 3, False)), sv=Ptr(out("sv", 3)), i=Ptr(Obj("i", [3], None, "short"))), post)


def c_sort3(I, args, f):
    a = argmap(f, args)
    v = [rd(I, a["v"], k) for k in range(3)]
    perm = list(itertools.permutations(range(3)))[I.ctx.choose(6)]
    I.ctx.assume(band(cmp("<=", v[perm[0]], v[perm[1]]), cmp("<=", v[perm[1]], v[perm[2]])))
    for k in range(3):
        wr(I, a["sv"], k, v[perm[k]])
        I.setlv(LV(a["i"].obj, a["i"].off + k, (), "short"), P.of(perm[k]))


def det_of(V):
    return (V[1][0] - V[0][0]) * (V[2][1] - V[0][1]) - (V[2][0] - V[0][0]) * (V[1][1] - V[0][1])


def v_signed_area(rep):
    for cw in (True, False):
        def post(I, a, ctx, r):
            V = [[var(f"ij[{v}][{d}]") for d in range(2)] for v in range(3)]
            ctx.require_equal("the result is the signed area", r, det_of(V) * Fraction(1, 2) * (1 if cw else -1))
        Job(rep, "signedArea", f"clockwise={cw}").run(lambda: dict(ij=Ptr(mat2("ij", 3, False)), clockwise=cw), post)


# ------------------------------------------------------------------ row ranges

def v_get_xrange(rep):
    for strict in (False, True):
        def args():
            X = Obj("x_begin", [], None, "short"), Obj("x_end", [], None, "short")
            return dict(width=W, left_eq=Ptr(vec("left", 3, False)), right_eq=Ptr(vec("right", 3, False)), y=gy, strict_edge=strict, x_min=var("x_min", "I"), x_max=var("x_max", "I"),
                        x_begin=LV(X[0], 0, (), "short"), x_end=LV(X[1], 0, (), "short"))

        def pre(ctx):
            base(ctx)
            ctx.assume(cmp(">", var("left[0]"), 0))
            ctx.assume(cmp("<", var("right[0]"), 0))
            for n in ("x_min", "x_max"):
                ctx.assume(band(cmp(">=", var(n, "I"), -INTMAX), cmp("<=", var(n, "I"), INTMAX)))

        def post(I, a, ctx):
            b, e = I.load(a["x_begin"]), I.load(a["x_end"])
            ctx.require("the range is inside the row", band(cmp(">=", b, 0), cmp("<=", e, W - 1)))
            ctx.require("the bounds of the range fit in a short", band(cmp("<=", b, 32766), cmp(">=", e, -32766)))
            ctx.require("the range is made of the pixels between the edges", iff(band(cmp("<=", b, gx), cmp("<=", gx, e)), between(ctx, strict)))
        Job(rep, "get_xrange", f"strict_edge={strict}", DIV).run(args, post, pre)


def between(ctx, strict, left=None, right=None, xmin=None, xmax=None):
    """The meaning of inrow()."""
    l = lin(left or [var(f"left[{k}]") for k in range(3)])
    r = lin(right or [var(f"right[{k}]") for k in range(3)])
    xmin = var("x_min", "I") if xmin is None else xmin
    xmax = var("x_max", "I") if xmax is None else xmax
    return band(cmp("<=", xmin, gx), cmp("<=", gx, xmax), cmp(">" if strict else ">=", l, 0), cmp(">=", r, 0))


# ------------------------------------------------------------------ stencil of a triangle

def numerators(V):
    """Barycentric numerators of the ghost pixel: N_i, with sum N_i = det and N_i = 2 * area opposite to vertex i."""
    out = []
    for i in range(3):
        U = [list(v) for v in V]
        U[i] = [gx, gy]
        out.append(det_of(U))
    return out


def v_stencil(rep, strict, cw):
    V = [[var(f"Vxy[{v}][{d}]") for d in range(2)] for v in range(3)]
    N = numerators(V)
    lam = [var(f"lambda{i}") for i in range(3)]
    det = var("det")

    def args():
        def ref(n, t="int"):
            return LV(Obj(n, [], None, t), 0, (), t)
        d = dict(Vxy=Ptr(mat2("Vxy", 3, False)), bary_to_xy1=Ptr(out("bary_to_xy1", 9)), xy1_to_bary=Ptr(out("xy1_to_bary", 9)), edge_eq=Ptr(out("edge_eq", 9)), strict_edge=strict, x_min=ref("x_min"), x_max=ref("x_max"))
        for n in ("y_begin", "y_end", "left_edge_id", "right_edge_id"):
            d[n] = Ptr(Obj(n, [2], None, "int"))
        return d

    def c_area(I, args, f):
        a = argmap(f, args)
        if not I.tolerant:
            ok = isinstance(a["ij"], Ptr) and a["ij"].obj.name == "Vxy" and a["clockwise"] in (True, False)
            I.ctx.report.add(I.ctx.name + ": the orientation is computed from the vertices", ok, "path exploration")
        return det * Fraction(1, 2) * (1 if a["clockwise"] else -1)

    def pre(ctx):
        base(ctx)
        ctx.assume(cmp(">" if cw else "<", det, 0))

    def post(I, a, ctx):
        rep.add(ctx.name + ": barycentric identities", equal(sum(N, P.of(0)), det_of(V)) and all(equal(sum((N[i] * (V[j][d] - V[i][d]) for i in range(3)), P.of(0)), det_of(V) * (V[j][d] - g)) for j in range(3) for d, g in ((0, gx), (1, gy))), "normal form")
        M = [rd(I, a["bary_to_xy1"], k) for k in range(9)]
        want = [V[v][d] for d in range(2) for v in range(3)] + [P.of(1)] * 3
        for x, y in zip(M, want):
            ctx.require_equal("bary_to_xy1 is made of the vertices", x, y)
        for k, t in enumerate(inv3(want)):
            ctx.require_equal("xy1_to_bary is its inverse", rd(I, a["xy1_to_bary"], k), t)
        ed = [[rd(I, a["edge_eq"], 3 * i + j) for j in range(3)] for i in range(3)]
        s = 1 if cw else -1
        val = {}
        for i in range(3):
            ctx.assume(flat(i, V, s))
        for i in range(3):
            v = lin(ed[i])
            o = [j for j in range(3) if equal(v, N[j] * s)]
            rep.add(ctx.name + ": the edge equations are positive multiples of the barycentric coordinates", o == [(i + 2) % 3], "normal form", detail=f"edge {i}: {v}")
            if not o:
                return
            val[i] = lam[o[0]]
        xm, xM = I.load(a["x_min"]), I.load(a["x_max"])
        cov = []
        for k in range(2):
            l, r = rd(I, a["left_edge_id"], k).const(), rd(I, a["right_edge_id"], k).const()
            yb, ye = rd(I, a["y_begin"], k), rd(I, a["y_end"], k)
            if l not in (0, 1, 2) or r not in (0, 1, 2):
                rep.fail(ctx.name + ": edge identifiers", f"{l} {r}")
                return
            rows = band(cmp("<=", yb, gy), cmp("<=", gy, ye))
            edges = band(cmp(">", ed[l][0], 0), cmp("<", ed[r][0], 0))
            ctx.require("a part that has rows has a left edge and a right edge", bor(bnot(rows), edges))
            ctx.require("the bounds fit in a short", band(*[band(cmp(">=", x, -INTMAX - 1), cmp("<=", x, INTMAX + 1)) for x in (yb, ye)], *[band(cmp(">=", x, -INTMAX), cmp("<=", x, INTMAX)) for x in (xm, xM)]))
            cov.append(band(rows, cmp("<=", xm, gx), cmp("<=", gx, xM), cmp(">" if strict else ">=", val[l], 0), cmp(">=", val[r], 0)))
        fill = []
        for i in range(3):
            if strict:
                lower = bor(cmp(">", ed[i][0], 0), band(cmp("==", ed[i][0], 0), cmp(">", ed[i][1], 0)))
                fill.append(bor(band(lower, cmp(">", val[i], 0)), band(bnot(lower), cmp(">=", val[i], 0))))
            else:
                fill.append(cmp(">=", val[i], 0))
        fill = band(*fill)
        hints(ctx, lam, V)
        ctx.require("a pixel of the triangle is drawn by a part", bor(bnot(fill), *cov))
        for k in range(2):
            ctx.require("a pixel drawn by a part is in the triangle", bor(bnot(cov[k]), fill))
        ctx.require("a pixel is drawn by a single part", bnot(band(*cov)))
    j = Job(rep, "get_triangle_stencil_equations", f"strict_edge={strict}, clockwise={cw}", dict(floor_to_int=c_floor_to_int, sort3=c_sort3, signedArea=c_area, inv_matrix_3x3=c_inv))
    j.ctx.timeout = 8000
    j.run(args, post, pre)


def flat(i, V, s):
    """Lemma: a horizontal edge of a triangle of orientation s is above or below the triangle."""
    j, o = (i + 1) % 3, (i + 2) % 3
    b = (V[j][0] - V[i][0]) * s
    h = V[o][1] - V[i][1]
    return bor(cmp("!=", V[i][1], V[j][1]), band(cmp(">", b, 0), cmp(">", h, 0)), band(cmp("<", b, 0), cmp("<", h, 0)))


def v_flat(rep):
    """Proof of the lemma flat()."""
    V = [[var(f"Vxy[{v}][{d}]") for d in range(2)] for v in range(3)]
    for s in (1, -1):
        c = Ctx(rep, "lemma")
        c.assume(cmp(">", det_of(V) * s, 0))
        for i in range(3):
            c.require("a horizontal edge is above or below its triangle", flat(i, V, s))


def hints(ctx, lam, V):
    """Facts on lambda_i = N_i / det, the barycentric coordinates of the ghost pixel:
    sum lambda_i = 1 and V_j - pixel = sum_i lambda_i * (V_j - V_i) (identities of N, checked by
    normal form in post); each product is an opaque term that has the sign of its factors."""
    ctx.assume(cmp("==", lam[0] + lam[1] + lam[2], 1))
    for d, g in ((0, gx), (1, gy)):
        for j in range(3):
            tot = P.of(0)
            for i in range(3):
                if i == j:
                    continue
                D = V[j][d] - V[i][d]
                t = var(f"lambda{i}*(V{j}-V{i})[{d}]")
                tot = tot + t
                s = 1 if ctx.valid(cmp(">=", D, 0)) else -1
                if not ctx.valid(cmp(">=", D * s, 0)):
                    raise Unsupported("the vertices are not sorted")
                l, nz = lam[i] * s, cmp("==", D, 0)
                ctx.assume(bor(bnot(nz), cmp("==", t, 0)))
                ctx.assume(bor(nz, band(cmp("<", l, 0), cmp("<", t, 0)), band(cmp("==", l, 0), cmp("==", t, 0)), band(cmp(">", l, 0), cmp(">", t, 0))))
            ctx.assume(cmp("==", V[j][d] - g, tot))


# ------------------------------------------------------------------ texture sampling

def tex_axis(ctx, p, n):
    """Position of a sample on an axis of n texels: (texel, next texel, weight of the next, inside)."""
    if ctx.branch(cmp("<", p, 0)):
        return P.of(0), None, P.of(0), False
    if ctx.branch(cmp(">=", p, n - 1)):
        return n - 1, None, P.of(0), False
    f = floor(p)
    return f, f + 1, p - f, True


def bil(ctx, p):
    """Weights of the texels: list of (x, y, weight), and derivatives of the weights."""
    ax = tex_axis(ctx, p[0], TW)
    ay = tex_axis(ctx, p[1], TH)
    xs = [(ax[0], 1 - ax[2], -1)] + ([(ax[1], ax[2], 1)] if ax[3] else [])
    ys = [(ay[0], 1 - ay[2], -1)] + ([(ay[1], ay[2], 1)] if ay[3] else [])
    out = []
    for x, wx, dx in xs:
        for y, wy, dy in ys:
            out.append((x, y, wx * wy, wy * dx if ax[3] else P.of(0), wx * dy if ay[3] else P.of(0)))
    return out


def texel(I, p, x, y):
    return rd(I, p, (y * TW + x) * C + gk)


def bil_args(extra):
    def args():
        d = dict(A=Ptr(Obj("A", [C], None, ghosts=[gk])), I=Ptr(texture("Texture", False)), I_size=Ptr(tsize()), p=Ptr(vec("p", 2, False)), sizeA=C)
        d.update(extra())
        return d
    return args


def bil_pre(ctx):
    base(ctx)
    base_tex(ctx)


def v_bilinear(rep):
    def post(I, a, ctx):
        got = rd(I, a["A"], gk)
        p = [var(f"p[{k}]") for k in range(2)]
        want = sum((w * texel(I, a["I"], x, y) for x, y, w, _, _ in bil(ctx, p)), P.of(0))
        ctx.require_equal("the sample is the bilinear interpolation of the nearest texels, clamped at the borders", got, want)
    Job(rep, "bilinear_sample", "").run(bil_args(dict), post, bil_pre)


def canon(ctx, p, base):
    """p with the elements of an array equal to `base` under the path condition replaced by it."""
    (k, _), = base.m.items()
    b = k[0][0]

    def f(a):
        if a is not b and a.name == b.name and len(a.args) == len(b.args) and all(ctx.eq(x, y) for x, y in zip(a.args, b.args)):
            return base
    return p.subst(f)


def v_bilinear_B(rep):
    def extra():
        return dict(A_B=Ptr(Obj("A_B", [C], lambda k: app("A_B", k), ghosts=[gk], writable=False)), I_B=Ptr(texture("Texture_B")), p_B=Ptr(vec("p_B", 2)))

    def post(I, a, ctx):
        p = [var(f"p[{k}]") for k in range(2)]
        g = app("A_B", gk)
        pB = [rd(I, a["p_B"], k) for k in range(2)]
        tB = texel(I, a["I_B"], gtx, gty)
        l = bil(ctx, p)
        for k in range(2):
            want = var(f"p_B[{k}]") + eps("g_k") * g * sum((w[3 + k] * texel(I, a["I"], w[0], w[1]) for w in l), P.of(0))
            ctx.require_equal("p_B receives the derivative of the sample", z0(pB[k]), want)
        base = want = app("Texture_B", gty, gtx, gk)
        for x, y, w, _, _ in l:
            if ctx.branch(band(cmp("==", x, gtx), cmp("==", y, gty))):
                want = want + g * w
        ctx.require_equal("the texels receive their weights", canon(ctx, z0(tB), base), want)
    Job(rep, "bilinear_sample_B", "").run(bil_args(extra), post, bil_pre)
