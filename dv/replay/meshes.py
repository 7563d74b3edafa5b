"""Meshes for the replay of the 3D properties."""
import numpy as np

TETRA = np.array([[0, 1, 2], [0, 3, 1], [1, 3, 2], [0, 2, 3]])
OCTA = np.array([[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]])
OCTA_V = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.]])


def fan(n):
    return np.array([[0, 1 + i, 2 + i] for i in range(n)]), np.vstack([[0, 0, 0], [[np.cos(a), np.sin(a), 0.2 * i] for i, a in enumerate(np.linspace(0, 4, n + 1))]])


def grid(n, m):
    f = []
    for i in range(n):
        for j in range(m):
            a = i * (m + 1) + j
            f += [[a, a + 1, a + m + 2], [a, a + m + 2, a + m + 1]]
    y, x = np.meshgrid(np.arange(n + 1.), np.arange(m + 1.), indexing="ij")
    return np.array(f), np.stack([x.ravel() - m / 2, y.ravel() - n / 2, 0 * x.ravel()], 1)


def torus(n=4, m=3):
    f, v = [], []
    for i in range(n):
        for j in range(m):
            a, b = 2 * np.pi * i / n, 2 * np.pi * j / m
            v.append([(2 + np.cos(b)) * np.cos(a), (2 + np.cos(b)) * np.sin(a), np.sin(b)])
            p, q, r, s = i * m + j, ((i + 1) % n) * m + j, ((i + 1) % n) * m + (j + 1) % m, i * m + (j + 1) % m
            f += [[p, q, r], [p, r, s]]
    return np.array(f), np.array(v)


def signed_volume(f, v):
    return sum(np.dot(v[a], np.cross(v[b], v[c])) for a, b, c in f) / 6


def mesh(rng, kind=None, closed=None, jitter=.15):
    """(faces, vertices, clockwise) of a manifold oriented mesh whose vertices are all used."""
    kinds = ["tetra", "octa", "torus"] if closed else ["fan", "grid", "one"] if closed is False else ["tetra", "octa", "torus", "fan", "grid", "one"]
    kind = kind or kinds[rng.randint(len(kinds))]
    if kind == "tetra":
        f, v = TETRA.copy(), rng.randn(4, 3)
    elif kind == "octa":
        f, v = OCTA.copy(), OCTA_V.copy()
    elif kind == "torus":
        f, v = torus(rng.randint(3, 6), rng.randint(3, 5))
    elif kind == "fan":
        f, v = fan(rng.randint(2, 5))
    elif kind == "grid":
        f, v = grid(rng.randint(1, 4), rng.randint(1, 4))
    else:
        f, v = np.array([[0, 1, 2]]), rng.randn(3, 3)
    v = v + jitter * rng.randn(*v.shape)
    cw = bool(rng.rand() < .5)
    if kind in ("tetra", "octa", "torus"):
        if signed_volume(f, v) < 0:
            f = f[:, ::-1]
        if cw:
            f = f[:, ::-1]
    # permute the faces, the vertices and the first corner of each face
    p = rng.permutation(len(v))
    inv = np.argsort(p)
    v, f = v[p], inv[f]
    f = np.array([np.roll(t, rng.randint(3)) for t in f])[rng.permutation(len(f))]
    return np.ascontiguousarray(f), np.ascontiguousarray(v), cw


def rotation(rng):
    q = rng.randn(4)
    q /= np.linalg.norm(q)
    x, y, z, w = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def edges_of(f):
    """dict undirected edge -> list of (face, directed pair)."""
    d = {}
    for k, t in enumerate(f):
        for i in range(3):
            a, b = int(t[i]), int(t[(i + 1) % 3])
            d.setdefault((min(a, b), max(a, b)), []).append((k, (a, b)))
    return d


# --- specification of the pieces, accepting complex arrays -------------------
def face_normals(f, v, cw):
    out = []
    for a, b, c in f:
        n = np.array(cross(v[b] - v[a], v[c] - v[a])) * (-1 if cw else 1)
        out.append(n / np.sqrt((n * n).sum()))
    return np.array(out)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def vertex_normals(f, v, cw):
    fn = face_normals(f, v, cw)
    n = np.zeros(v.shape, fn.dtype)
    for k, t in enumerate(f):
        for i in t:
            n[i] = n[i] + fn[k]
    return n / np.sqrt((n * n).sum(axis=1))[:, None]


def project(cam, p):
    """cam: dict(ext, intr, dist)."""
    q = np.array([[sum(cam["ext"][i, j] * x[j] for j in range(3)) + cam["ext"][i, 3] for i in range(3)] for x in p])
    x, y, z = q[:, 0] / q[:, 2], q[:, 1] / q[:, 2], q[:, 2]
    if cam["dist"] is not None:
        k1, k2, p1, p2, k3 = cam["dist"]
        r2 = x * x + y * y
        rad = 1 + k1 * r2 + k2 * r2 * r2 + k3 * r2 * r2 * r2
        x, y = x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x * x), y * rad + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y
    K = cam["intr"]
    return np.stack([K[0, 0] * x + K[0, 1] * y + K[0, 2], K[1, 0] * x + K[1, 1] * y + K[1, 2]], 1), z


def luminosity(f, v, cw, light, ambient, nv):
    if light is None:
        return np.zeros(nv) + ambient
    n = vertex_normals(f, v, cw)
    d = -(n * light).sum(axis=1)
    return np.where(np.real(d) > 0, d, 0) + ambient


def silhouette(f, p2, cw):
    p2 = np.real(p2)
    vis = []
    for a, b, c in f:
        u, w = p2[b] - p2[a], p2[c] - p2[a]
        s = u[0] * w[1] - u[1] * w[0]
        vis.append(s > 0 if cw else s < 0)
    d = edges_of(f)
    out = np.zeros((len(f), 3), bool)
    for k, t in enumerate(f):
        for i in range(3):
            a, b = int(t[i]), int(t[(i + 1) % 3])
            out[k, i] = sum(vis[g] for g, _ in d[(min(a, b), max(a, b))]) == 1
    return out, np.array(vis)
