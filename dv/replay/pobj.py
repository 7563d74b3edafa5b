"""OBJ files: C26."""
import os
import tempfile
import numpy as np
from .core import test, diff, first


def write(text):
    fd, p = tempfile.mkstemp(suffix=".obj", prefix="dv_obj_")
    with os.fdopen(fd, "w") as f:
        f.write(text)
    return p


@test("C26", "reading", 150)
class _:
    def gen(rng, i):
        nv, nf = int(rng.randint(3, 9)), int(rng.randint(1, 6))
        v = np.round(rng.randn(nv, 3), 5)
        f = np.array([rng.permutation(nv)[:3] for _ in range(nf)])
        style = i % 5
        lines = ["# comment", "o thing"]
        for k in range(nv):
            lines.append("v " + " ".join(repr(float(x)) for x in v[k]))
            if rng.rand() < .3:
                lines.append("vn 0 0 1")
            if rng.rand() < .3:
                lines.append("vt 0.5 0.25")
        if i % 7 == 0:
            lines.append("")
        for t in f:
            idx = [int(a) - nv if style == 1 or (style == 4 and rng.rand() < .5) else int(a) + 1 for a in t]
            suf = ["", "", "/1", "//2", "/1/2"][style]
            l = "f " + " ".join(str(a) + suf for a in idx)
            if rng.rand() < .2:
                l = l[:len(l) // 2].rsplit(" ", 1)[0] + " \\\n" + l[len(l[:len(l) // 2].rsplit(" ", 1)[0]) + 1:]
            lines.append(l)
        if i % 3 == 0:
            lines += ["g part", "usemtl m", "s off"]
        return dict(text="\n".join(lines) + ("\n" if i % 2 else ""), v=v, f=f)

    def run(c):
        from deodr.obj import read_obj
        p = write(c["text"])
        try:
            f, v = read_obj(p)
        finally:
            os.unlink(p)
        return first(diff("vertices", v, c["v"], 1e-12), diff("faces", f, c["f"], 0))


@test("C26", "relative indices count the vertices read so far", 40)
class _:
    def gen(rng, i):
        lines, v, f, n = [], [], [], 0
        for b in range(int(rng.randint(1, 4))):
            for k in range(3):
                x = np.round(rng.randn(3), 4)
                v.append(x)
                lines.append("v " + " ".join(repr(float(a)) for a in x))
                n += 1
            o = rng.permutation(3) - 3
            lines.append("f " + " ".join(map(str, o)))
            f.append(n + o)
        return dict(text="\n".join(lines) + "\n", v=np.array(v), f=np.array(f))

    def run(c):
        from deodr.obj import read_obj
        p = write(c["text"])
        try:
            f, v = read_obj(p)
        finally:
            os.unlink(p)
        return first(diff("vertices", v, c["v"], 1e-12), diff("faces", f, c["f"], 0))


@test("C26", "round trip", 100)
class _:
    def gen(rng, i):
        nv, nf = int(rng.randint(3, 9)), int(rng.randint(1, 6))
        return dict(v=rng.randn(nv, 3) * 10 ** rng.uniform(-3, 4), f=np.array([rng.permutation(nv)[:3] for _ in range(nf)]))

    def run(c):
        from deodr.obj import read_obj, save_obj
        p = write("")
        try:
            save_obj(p, c["v"].copy(), c["f"].copy())
            f, v = read_obj(p)
        finally:
            os.unlink(p)
        if np.shape(v) != c["v"].shape:
            return "number of vertices"
        if np.abs(v - c["v"]).max() > 6e-7:
            return f"vertices differ by {np.abs(v - c['v']).max()}"
        return diff("faces", f, c["f"], 0)
