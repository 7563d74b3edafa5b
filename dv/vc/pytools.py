"""C20: deodr/tools.py"""
from .pyver import *


def quat_rows(q):
    """Rotation matrix of the quaternion (x, y, z, w), as a polynomial."""
    x, y, z, w = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def quat_matrix(sign=1):
    """An arbitrary rotation (or minus a rotation): every one has this form."""
    q = [var(f"q{i}") for i in range(4)]
    n = q[0] ** 2 + q[1] ** 2 + q[2] ** 2 + q[3] ** 2
    m = [[(n if i == j else 0) for j in range(3)] for i in range(3)]
    r = quat_rows(q)
    # homogeneous form
    for i in range(3):
        for j in range(3):
            m[i][j] = (m[i][j] + r[i][j] - (1 if i == j else 0)) / n * sign
    return asA(m)


def v_tools(rep):
    p = Py(rep, "tools.cross_backward")

    def cross(p):
        t = p.get("tools")
        N = B("N")
        u, v, w = symbol("u", N, 3), symbol("v", N, 3), symbol("w", N, 3)
        L = p.dot(w, nps.np_cross(u, v))
        ub, vb = t.cross_backward(u, v, w)
        p.adjoint("gradient of the first factor", L, u, ub)
        p.adjoint("gradient of the second factor", L, v, vb)
        p.unchanged("arguments", u=u, v=v, w=w)
    p.run(cross)
    p.use("deodr/tools.py", "cross_backward", "normalize", "normalize_backward", "qrot", "qrot_backward")

    for axis, nd in ((-1, 1), (0, 2), (1, 2), (-1, 2), (1, 3)):
        p = Py(rep, f"tools.normalize axis {axis} of {nd}")

        def nrm(p):
            t = p.get("tools")
            dims = (B("N"), B("M"), B("K"))[:nd]
            x, w = symbol("x", *dims), symbol("w", *dims)
            y = t.normalize(x, axis=axis)
            sq = nps.np_sum(x * x, axis=axis)
            p.eq("unit length", nps.np_sum(y * y, axis=axis), nps.np_ones(sq.dims))
            p.eq("direction", y * nps.np_expand_dims(nps.np_sqrt(sq), axis), x)
            L = p.dot(w, y)
            p.adjoint("gradient", L, x, t.normalize_backward(x, w, axis=axis))
            p.unchanged("arguments", x=x, w=w)
        p.run(nrm)

    R = quat_rows
    p = Py(rep, "tools.qrot one quaternion")

    def one(p):
        t = p.get("tools")
        N = B("N")
        q, v, w = symbol("q", 4), symbol("v", N, 3), symbol("w", N, 3)
        r = t.qrot(q, v)
        m = R([num(q.at(i)) for i in range(4)])
        p.eq("rotation matrix", r, new((N, 3), lambda i: sum((m[i[1]][k] * v.at(i[0], k) for k in range(3)), P.of(0))))
        qb, vb = t.qrot_backward(q, v, w)
        L = p.dot(w, r)
        p.adjoint("gradient of the quaternion", L, q, qb)
        p.adjoint("gradient of the vectors", L, v, vb)
        p.unchanged("arguments", q=q, v=v, w=w)
    p.run(one)

    p = Py(rep, "tools.qrot several quaternions")

    def many(p):
        t = p.get("tools")
        N, Q = B("N"), B("Q")
        q, v = symbol("q", Q, 4), symbol("v", N, 3)

        def want(i):
            m = R([num(q.at(i[0], k)) for k in range(4)])
            return sum((m[i[2]][k] * v.at(i[1], k) for k in range(3)), P.of(0))
        p.eq("rotation matrices", t.qrot(q, v), new((Q, N, 3), want))
        p.unchanged("arguments", q=q, v=v)
    p.run(many)

    p = Py(rep, "lemma: the matrix of a unit quaternion is a rotation")

    def lem(p):
        q = [var(f"q{i}") for i in range(4)]
        n2 = q[0] ** 2 + q[1] ** 2 + q[2] ** 2 + q[3] ** 2
        u = [x / sqrt(n2) for x in q]
        m = R(u)
        for i in range(3):
            for j in range(3):
                p.zero("orthonormal", sum((m[i][k] * m[j][k] for k in range(3)), P.of(0)) - (1 if i == j else 0))
        d = num(nps.np_det(asA(m)).item())
        p.zero("determinant one", d - 1)
    p.run(lem)
