"""Random 2.5D scenes, from generic to degenerate."""
import numpy as np
from .raster import S


def grid(rng, n, lo, hi, step):
    return np.round(rng.uniform(lo, hi, n) / step) * step


def scene(rng, nt=None, H=None, W=None, C=None, mode="generic", textured=None, shared=True, **kw):
    H = H or int(rng.choice([1, 2, 5, 9, 13]))
    W = W or int(rng.choice([1, 2, 5, 9, 13]))
    C = C or int(rng.choice([1, 2, 3, 4]))
    nt = nt or int(rng.choice([1, 2, 3, 5]))
    nv = int(rng.randint(3, 3 * nt + 1)) if shared else 3 * nt
    if mode == "grid":
        ij = np.stack([grid(rng, nv, -2, W + 1, rng.choice([1, .5, .25])), grid(rng, nv, -2, H + 1, rng.choice([1, .5, .25]))], 1)
    else:
        spread = rng.choice([0.0, 0.5, 3.0])
        ij = np.stack([rng.uniform(-spread * W - 1, W + spread * W, nv), rng.uniform(-spread * H - 1, H + spread * H, nv)], 1)
    faces = np.zeros((nt, 3), np.uint32)
    for k in range(nt):
        faces[k] = rng.permutation(nv)[:3] if shared else np.arange(3 * k, 3 * k + 3)
    nuv = int(rng.randint(3, 3 * nt + 2))
    faces_uv = rng.randint(0, nuv, (nt, 3)).astype(np.uint32)
    if kw.get("distinct_uv", False):
        for k in range(nt):
            faces_uv[k] = rng.permutation(nuv)[:3]
    kw.pop("distinct_uv", None)
    th, tw = int(rng.randint(2, 6)), int(rng.randint(2, 6))
    texture = rng.rand(th, tw, C)
    uv = rng.uniform(-1, 1, (nuv, 2)) * [tw, th] * rng.choice([.4, .8]) + [tw / 2, th / 2]
    t = rng.rand(nt) < 0.5 if textured is None else np.full(nt, bool(textured))
    d = dict(
        faces=faces, faces_uv=faces_uv, ij=ij, depths=rng.uniform(0.5, 3, nv), textured=t, uv=uv, shade=rng.rand(nv) + .2,
        colors=rng.rand(nv, C), shaded=t.copy(), edgeflags=rng.rand(nt, 3) < 0.7, height=H, width=W, nb_colors=C,
        texture=texture, background_image=rng.rand(H, W, C) if rng.rand() < .5 else None, background_color=None,
        clockwise=bool(rng.rand() < .5), backface_culling=True, strict_edge=bool(rng.rand() < .7), perspective_correct=bool(rng.rand() < .4),
        integer_pixel_centers=bool(rng.rand() < .6))
    if d["background_image"] is None:
        d["background_color"] = rng.rand(C)
    d.update(kw)
    s = S(**d)
    # orient about 3/4 of the triangles to the front
    for k in range(nt):
        V = s.ij[s.faces[k]]
        a = (V[1, 0] - V[0, 0]) * (V[2, 1] - V[0, 1]) - (V[1, 1] - V[0, 1]) * (V[2, 0] - V[0, 0])
        if ((a > 0) != s.clockwise) and rng.rand() < .75:
            s.faces[k] = s.faces[k][::-1]
            s.faces_uv[k] = s.faces_uv[k][::-1]
    return s


def show(s):
    o = {}
    for k, v in s.__dict__.items():
        o[k] = v.tolist() if isinstance(v, np.ndarray) else v
    return o


def load(o):
    d = {}
    for k, v in o.items():
        if isinstance(v, list):
            v = np.array(v)
            if k in ("faces", "faces_uv"):
                v = v.astype(np.uint32)
            elif k in ("textured", "shaded", "edgeflags"):
                v = v.astype(bool)
            else:
                v = v.astype(float)
        d[k] = v
    return S(**d)
