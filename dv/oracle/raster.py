"""Independent specification of the 2.5D renderer, evaluated per pixel in numpy.

Written from the property statements, not from the C++ code.  Every decision is
taken on the real part, so that the functions can be evaluated on complex inputs
(complex-step differentiation gives the exact derivative at fixed decisions).
`amb` marks pixels on which a decision is too close to call in floating point.
"""
import numpy as np

TOL = 1e-7


def re(x):
    return np.real(x)


class S:
    """Plain container for a 2.5D scene (numpy arrays)."""
    def __init__(self, **k):
        self.__dict__.update(k)

    def copy(self):
        return S(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in self.__dict__.items()})


def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def covered(V, X, Y, strict, exact, tol=TOL):
    """Fill rule. Returns (mask, ambiguous)."""
    V = re(V)
    a2 = cross2(V[1] - V[0], V[2] - V[0])
    s = np.sign(a2)
    mask = np.ones(X.shape, bool)
    amb = np.zeros(X.shape, bool)
    for i in range(3):
        P, Q = V[i], V[(i + 1) % 3]
        # positive inside
        a = -s * (Q[1] - P[1])
        b = s * (Q[0] - P[0])
        E = a * (X - P[0]) + b * (Y - P[1])
        left_or_top = a > 0 or (a == 0 and b > 0)
        if strict and left_or_top:
            mask &= E > 0
        else:
            mask &= E >= 0
        if not exact:
            amb |= np.abs(E) < tol * (1 + abs(a) + abs(b)) * (1 + np.abs(V).max())
    if not exact and abs(a2) < tol:
        amb[:] = True
    return mask, amb


def bary3(V, X, Y):
    a2 = cross2(V[1] - V[0], V[2] - V[0])
    l = []
    for i in range(3):
        P, Q = V[(i + 1) % 3], V[(i + 2) % 3]
        l.append(((Q[0] - P[0]) * (Y - P[1]) - (Q[1] - P[1]) * (X - P[0])) / a2)
    return l


def clamp(u, hi):
    u = np.where(re(u) < 0, 0 * u, u)
    return np.where(re(u) > hi, 0 * u + hi, u)


def bilinear(tex, u, v):
    """Bilinear sample at (column u, row v), clamped to the texture domain. Shape (...,C)."""
    th, tw = tex.shape[:2]
    u = clamp(u, tw - 1)
    v = clamp(v, th - 1)
    i = np.clip(np.floor(re(u)).astype(int), 0, max(tw - 2, 0))
    j = np.clip(np.floor(re(v)).astype(int), 0, max(th - 2, 0))
    i1 = np.minimum(i + 1, tw - 1)
    j1 = np.minimum(j + 1, th - 1)
    fu = (u - i)[..., None]
    fv = (v - j)[..., None]
    return ((1 - fu) * (1 - fv) * tex[j, i] + fu * (1 - fv) * tex[j, i1] + (1 - fu) * fv * tex[j1, i] + fu * fv * tex[j1, i1])


def uv_kink(u, v, tol=1e-6):
    u, v = re(u), re(v)
    return (np.abs(u - np.round(u)) < tol) | (np.abs(v - np.round(v)) < tol)


def front(s):
    """(signed area with front > 0, all vertices in front of the camera)."""
    A = np.zeros(len(s.faces))
    ok = np.ones(len(s.faces), bool)
    for k, f in enumerate(s.faces):
        V = re(s.ij[f])
        A[k] = 0.5 * cross2(V[1] - V[0], V[2] - V[0]) * (1 if s.clockwise else -1)
        ok[k] = np.all(re(s.depths[f]) >= 0)
    return A, ok


def forward(s, sigma=0.0, obs=None, exact=False, grad=False, kf1=False):
    H, W, C = s.height, s.width, s.nb_colors
    off = 0 if s.integer_pixel_centers else 0.5
    dt = complex if any(np.iscomplexobj(getattr(s, n)) for n in ("ij", "colors", "uv", "shade", "texture", "depths")) else float
    Y, X = np.meshgrid(np.arange(H, dtype=float), np.arange(W, dtype=float), indexing="ij")
    img = np.empty((H, W, C), dt)
    if s.background_image is not None:
        img[:] = s.background_image
    else:
        img[:] = s.background_color
    z = np.full((H, W), np.inf, dt)
    z = z.real.astype(dt) if dt is float else np.full((H, W), np.inf).astype(complex)
    amb = np.zeros((H, W), bool)
    owner = np.full((H, W), -1)
    A, ok = front(s)
    for k, f in enumerate(s.faces):
        if not ok[k] or A[k] == 0 or (A[k] < 0 and s.backface_culling):
            continue
        if s.textured[k] and not s.shaded[k]:
            continue
        V = s.ij[f] - off
        m, am = covered(V, X, Y, s.strict_edge, exact)
        amb |= am
        if not m.any():
            continue
        with np.errstate(all="ignore"):
            l = bary3(V, X, Y)
            zv = s.depths[f]
            if s.perspective_correct:
                Z = 1 / (l[0] / zv[0] + l[1] / zv[1] + l[2] / zv[2])
                w = [l[i] / zv[i] * Z for i in range(3)]
            else:
                Z = l[0] * zv[0] + l[1] * zv[1] + l[2] * zv[2]
                w = l
            d = re(Z) - re(z)
            amb |= m & (np.abs(d) < TOL * (1 + np.abs(re(Z))))
            m = m & (d < 0)
        if s.textured[k]:
            fu = s.faces_uv[k]
            u = sum(w[i] * s.uv[fu[i], 0] for i in range(3))
            v = sum(w[i] * s.uv[fu[i], 1] for i in range(3))
            L = sum(w[i] * s.shade[f[i]] for i in range(3))
            um, vm, Lm = np.where(m, u, 0), np.where(m, v, 0), np.where(m, L, 0)
            col = bilinear(s.texture, um, vm) * Lm[..., None]
            if grad:
                amb |= m & uv_kink(um, vm)
        else:
            col = sum(w[i][..., None] * s.colors[f[i]] for i in range(3))
        img = np.where(m[..., None], col, img)
        z = np.where(m, Z, z)
        owner = np.where(m, k, owner)
    err = None
    if obs is not None:
        err = ((img - obs) ** 2).sum(axis=2)
    if sigma > 0:
        ssum = np.array([re(s.depths[f]).sum() for f in s.faces])
        order = np.argsort(-ssum, kind="stable")
        for k in order:
            if not (A[k] > 0 and ok[k]):
                continue
            f = s.faces[k]
            for n in range(3):
                if not s.edgeflags[k, n]:
                    continue
                ia, ib, ic = n, (n + 1) % 3, (n + 2) % 3
                P, Q, R = s.ij[f[ia]] - off, s.ij[f[ib]] - off, s.ij[f[ic]] - off
                d = Q - P
                ln = np.sqrt(d[0] * d[0] + d[1] * d[1])
                nrm = np.array([d[1], -d[0]]) / ln
                if re(nrm[0] * (R[0] - P[0]) + nrm[1] * (R[1] - P[1])) > 0:
                    nrm = -nrm
                T = (nrm[0] * (X - P[0]) + nrm[1] * (Y - P[1])) / sigma
                bq = (d[0] * (X - P[0]) + d[1] * (Y - P[1])) / (ln * ln)
                bp = 1 - bq
                m = (re(T) > 0) & (re(T) < 1) & (re(bq) > 0) & (re(bp) > 0)
                near = (np.abs(re(T)) < TOL) | (np.abs(1 - re(T)) < TOL) | (np.abs(re(bq)) < TOL) | (np.abs(re(bp)) < TOL)
                inb = (re(T) > -TOL) & (re(T) < 1 + TOL) & (re(bq) > -TOL) & (re(bp) > -TOL)
                amb |= near & inb
                za, zb = s.depths[f[ia]], s.depths[f[ib]]
                with np.errstate(all="ignore"):
                    if s.perspective_correct:
                        Z = 1 / (bp / za + bq / zb)
                        wp, wq = bp / za * Z, bq / zb * Z
                    else:
                        Z = bp * za + bq * zb
                        wp, wq = bp, bq
                    dz = re(Z) - re(z)
                    amb |= inb & (np.abs(dz) < TOL * (1 + np.abs(re(Z))))
                    m = m & (dz < 0)
                if s.textured[k] and s.shaded[k]:
                    fu = s.faces_uv[k]
                    u = wp * s.uv[fu[ia], 0] + wq * s.uv[fu[ib], 0]
                    v = wp * s.uv[fu[ia], 1] + wq * s.uv[fu[ib], 1]
                    L = wp * s.shade[f[ia]] + wq * s.shade[f[ib]]
                    um, vm, Lm = np.where(m, u, 0), np.where(m, v, 0), np.where(m, L, 0)
                    col = bilinear(s.texture, um, vm) * Lm[..., None]
                    if grad:
                        amb |= m & uv_kink(um, vm)
                else:
                    col = wp[..., None] * s.colors[f[ia]] + wq[..., None] * s.colors[f[ib]]
                    if kf1 and obs is not None:  # known finding KF1 (only the x coefficient is differentiated)
                        gx = (d[0] / (ln * ln)) * (s.colors[f[ib]] - s.colors[f[ia]])
                        col = gx * X[..., None] + re(col - gx * X[..., None])
                if obs is None:
                    Tm = np.where(m, T, 1)[..., None]
                    img = np.where(m[..., None], Tm * img + (1 - Tm) * col, img)
                else:
                    e = ((col - obs) ** 2).sum(axis=2)
                    err = np.where(m, T * err + (1 - T) * e, err)
    return dict(image=img, z=re(z), err=err, amb=amb, owner=owner)


GRAD_FIELDS = ("ij", "colors", "uv", "shade", "texture")


def gradients(s, sigma, weight, obs=None, fields=GRAD_FIELDS, exact=False, kf1=False):
    """d/dfield of sum(weight*image) (or sum(weight*err) when obs is given), by complex step."""
    h = 1e-30
    out = {}
    for name in fields:
        base = getattr(s, name)
        g = np.zeros(base.shape)
        for idx in np.ndindex(*base.shape):
            c = s.copy()
            a = base.astype(complex)
            a[idx] += 1j * h
            setattr(c, name, a)
            r = forward(c, sigma, obs, exact=exact, kf1=kf1)
            val = r["image"] if obs is None else r["err"]
            g[idx] = np.imag(np.sum(np.where(weight != 0, weight * val, 0))) / h
        out[name] = g
    return out
