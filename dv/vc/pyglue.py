"""C10, C11: renderSceneCpp and renderSceneBCpp of deodr/differentiable_renderer_cython.pyx, with
the C++ functions renderScene and renderScene_B as contracts.

The module is translated to Python by pyx.py on every run and executed on symbolic scenes.
Precondition of the C++ functions (what C10 assumes of its arguments): every pointer is the
start of a contiguous array of its type, alive during the call, with at least the number of
elements that the sizes in the structure say; one background; no textured triangle without
texture.  The first family of runs gives every array sizes of its own: on every path that
reaches the C++ function the precondition holds, on every other an exception is raised and
nothing has been written.  The second gives a consistent scene: it is accepted, the structure
describes the scene's own arrays and settings, the outputs land in the caller's arrays and the
gradients are added to those of the scene."""
import re
import types
import weakref
from . import pyload, pyx
from .pyver import *
from .pyscene import ARRAYS, GRADS, FLAGS, SHAPE, V, U, F, H, W, C, TH, TW, arrays_unchanged

PYX = "deodr/differentiable_renderer_cython.pyx"
PY = "deodr/differentiable_renderer.py"
CKIND = {"double": ("f",), "unsigned int": ("u4",), "bool": ("b", "u1"), "uint32_t": ("u4",), "uint8_t": ("b", "u1"), "char": ("b", "u1"), "unsigned char": ("b", "u1")}
NPKIND = {"double": "f", "np.double_t": "f", "np.float64_t": "f", "np.uint32_t": "u4", "np.uint8_t": "u1", "unsigned int": "u4", "unsigned char": "u1"}


class Undefined(Exception):
    """Undefined behaviour of C."""


class Null:
    def __eq__(self, o):
        return isinstance(o, Null)

    def __bool__(self):
        return False

    __hash__ = object.__hash__


class Data:
    """The data attribute of an array."""

    def __init__(self, a):
        self.a = a


class Ptr:
    def __init__(self, ty, a):
        self.ty, self.ref, self.dims = ty, weakref.ref(a), a.dims

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.ref() is self.ref()

    def __bool__(self):
        return True

    __hash__ = object.__hash__


class Struct:
    def __init__(self, glue, ty):
        self.__dict__["glue_"], self.__dict__["ty_"] = glue, ty

    def __setattr__(self, k, v):
        f = self.glue_.data["structs"][self.ty_]
        if k not in f:
            raise Unsupported(f"no field {k} in {self.ty_}")
        self.__dict__[k] = self.glue_.coerce(f[k], v)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Undefined(f"field {k} is read before it is set")

    def copy(self):
        s = Struct(self.glue_, self.ty_)
        s.__dict__.update(self.__dict__)
        return s


class Cast:
    def __init__(self, glue, ty):
        self.glue, self.ty = glue, ty

    def __pow__(self, x):
        return self.glue.coerce(self.ty, x, True)


class Glue:
    def __init__(self, p, use_python):
        self.p, self.calls = p, []
        full = __import__("os").path.join(pyload.REPO, PYX)
        text, self.data = pyx.translate(open(full).read())
        names = dict(COERCE_=self.coerce, CAST_=lambda ty: Cast(self, ty), STRUCT_=lambda ty: Struct(self, ty), NULL_=Null(), INDEX_=self.index, ATTR_=self.attr,
                     renderScene=self.render, renderScene_B=self.render_b, cython=types.SimpleNamespace())
        rw = pyx.Rewrite(self.data)
        self.m = pyload.load(PYX, lambda t: rw.visit(t), src=text, **names)
        self.written = False
        if use_python:
            p.env._m["cpp"] = self.m
            self.dr = p.get("dr")

    def coerce(self, ty, x, cast=False):
        if ty.startswith("np.ndarray"):
            return self.ndarray(ty, x)
        base = ty.rstrip("*").strip()
        if ty.endswith("*") and base not in self.data["structs"]:
            if isinstance(x, Null):
                return x
            if isinstance(x, Data) and (cast or base == "char"):
                return Ptr(base, x.a)
            if isinstance(x, Ptr) and (cast or x.ty == base):
                r = Ptr.__new__(Ptr)
                r.ty, r.ref, r.dims = base, x.ref, x.dims
                return r
            raise Unsupported(f"{ty} of {type(x).__name__}")
        if base in self.data["structs"]:
            return x if ty.endswith("*") else x.copy()
        if ty in ("object", "void"):
            return x
        if ty in ("bool", "bint"):
            if x is None and not cast:
                return False
            return bool(x)
        if isinstance(x, A):
            x = x.item()
        if ty in ("double", "float"):
            if not isinstance(x, (int, float, P, nps.Dim)):
                raise TypeError("must be real number")
            return x
        if isinstance(x, bool):
            return int(x)
        if not isinstance(x, (int, P, nps.Dim)):
            raise TypeError("an integer is required")
        return x

    def ndarray(self, ty, x):
        m = re.match(r"np\.ndarray\[([\w. ]+)(.*)\]( not None)?$", ty)
        if not m and ty != "np.ndarray":
            raise Unsupported(ty)
        if x is None:
            if m and m.group(3):
                raise TypeError("None")
            return x
        if not isinstance(x, A):
            raise TypeError("not an array")
        if m:
            o = m.group(2).replace(" ", "")
            n = re.search(r"ndim=(\d+)", o)
            if x.ndim != (int(n.group(1)) if n else 1):
                raise ValueError("Buffer has wrong number of dimensions")
            if m.group(1).strip() not in NPKIND:
                raise Unsupported(ty)
            if x.buf.dtype != NPKIND[m.group(1).strip()]:
                raise ValueError("Buffer dtype mismatch")
            if re.search(r"mode=.c.", o) and getattr(x, "strided", False):
                raise ValueError("ndarray is not C-contiguous")
        return x

    def attr(self, x, a):
        if x is None:
            raise Undefined(f"attribute {a} of a typed array that is None")
        return Data(x) if a == "data" else getattr(x, a)

    def index(self, x, k):
        if isinstance(x, tuple) and not -len(x) <= k < len(x):
            raise Undefined(f"element {k} of a tuple of {len(x)} elements, bounds not checked")
        return x[k]

    # the C++ functions
    def pointer(self, name, x, ty, n, optional=False):
        p = self.p
        if optional and isinstance(x, Null):
            return None
        if not p.true(f"precondition of the C++ function: {name} is set", isinstance(x, Ptr), f"{x}"):
            return None
        a = x.ref()
        if not p.true(f"precondition of the C++ function: {name} is alive", a is not None):
            return None
        p.true(f"precondition of the C++ function: {name} is contiguous", not getattr(a, "strided", False))
        p.true(f"precondition of the C++ function: {name} has elements of type {ty}", x.ty == ty and a.buf.dtype in CKIND[ty], f"{x.ty}* to elements {a.buf.dtype}")
        have = P.of(1)
        for d in a.dims:
            have = have * nps.size(d)
        if n is None:
            return a
        p.true(f"precondition of the C++ function: {name} has the number of elements that the sizes say", have == n or self.le(n, have), f"{have} elements instead of {n}")
        return a

    def le(self, n, have):
        c = self.p.c
        return valid(cmp("<=", n, have)) or valid(cmp("==", n, have)) or c.valid_nl(cmp("<=", n, have))

    def facts(self, name, dims, need):
        """need(t) for all elements, given what the code has asked about all elements."""
        p, c = self.p, self.p.c
        c.solver.push()
        n = len(c.pc)
        ok = True
        try:
            for t in itertools.product(*[indices(d) for d in dims]):
                for q, v in c.facts:
                    if isinstance(q, Quant) and v == (q.kind == "all") and len(q.dims) == len(dims) and all(a is b or a == b if isinstance(a, int) and isinstance(b, int) else nps.same_dim(a, b) for a, b in zip(q.dims, dims)):
                        c.assume(q.f(t) if v else bnot(q.f(t)))
                ok = ok and valid(need(t))
        except Infeasible:
            ok = True
        finally:
            c.solver.pop()
            del c.pc[n:]
        p.true(name, ok)

    def check(self, s, args, back):
        """The precondition; returns the arrays by name."""
        p = self.p
        p.true("C++ exceptions are turned into Python exceptions", "except" in self.data["externs"]["renderScene_B" if back else "renderScene"]["clause"] and "+" in self.data["externs"]["renderScene_B" if back else "renderScene"]["clause"])
        if not p.true("the whole scene is given", isinstance(s, Struct)):
            raise Infeasible
        z = lambda k: nps.num(getattr(s, k))
        nt, nv, nu, h, w, c, th, tw = (z(k) for k in ("nb_triangles", "nb_vertices", "nb_uv", "height", "width", "nb_colors", "texture_height", "texture_width"))
        n = dict(faces=3 * nt, faces_uv=3 * nt, depths=nv, uv=2 * nu, ij=2 * nv, shade=nv, colors=nv * c, edgeflags=3 * nt, textured=nt, shaded=nt, texture=th * tw * c)
        ty = dict(faces="unsigned int", faces_uv="unsigned int", edgeflags="bool", textured="bool", shaded="bool")
        out = {k: self.pointer(k, getattr(s, k), ty.get(k, "double"), n[k] if k != "texture" else None) for k in n}
        bi, bc = getattr(s, "background_image"), getattr(s, "background_color")
        p.true("precondition of the C++ function: one background", isinstance(bi, Null) != isinstance(bc, Null))
        out["background_image"] = self.pointer("background_image", bi, "double", h * w * c, True)
        out["background_color"] = self.pointer("background_color", bc, "double", c, True)
        for k in ("clockwise", "backface_culling", "strict_edge", "perspective_correct", "integer_pixel_centers"):
            getattr(s, k)
        err = args["antialiase_error"]
        need = dict(image=h * w * c, z_buffer=h * w)
        if err:
            need.update(obs=h * w * c, err_buffer=h * w)
        if back:
            need.update(dict(err_buffer_b=h * w) if err else dict(image_b=h * w * c))
            for k in GRADS:
                out[k + "_b"] = self.pointer(k + "_b", getattr(s, k + "_b"), "double", n[k] if k != "texture" else None)
        for k in need:
            out[k] = self.pointer(k, args[k], "double", need[k])
        enough = valid(cmp("<", 0, n["texture"])) or self.p.c.valid_nl(cmp("<", 0, n["texture"]))
        for k in ("texture", "texture_b") if back else ("texture",):
            have = P.of(1)
            for d in (out[k].dims if out[k] is not None else (0,)):
                have = have * nps.size(d)
            enough = enough and self.le(n["texture"], have)
        if not enough:
            r = self.scene.textured.reader()
            self.facts("precondition of the C++ function: no textured triangle without texture", self.scene.textured.dims, lambda i: bnot(cond(r(i))))
        r = self.scene.faces_uv.reader()
        self.facts("texture coordinate indices are in range before their conversion", self.scene.faces_uv.dims, lambda t: band(cmp("<=", 0, num(r(t))), cmp("<", num(r(t)), nu)))
        return out

    def render(self, *a):
        self.call(False, dict(zip(("scene", "image", "z_buffer", "sigma", "antialiase_error", "obs", "err_buffer"), a)))

    def render_b(self, *a):
        self.call(True, dict(zip(("scene", "image", "z_buffer", "image_b", "sigma", "antialiase_error", "obs", "err_buffer", "err_buffer_b"), a)))

    def write(self, a, v):
        a.assign(v)
        while getattr(a, "view_of", None) is not None:   # a view shares its memory
            b = a.view_of
            b.assign(a.reshape(b.dims))
            a = b

    def call(self, back, args):
        if len(args) != (9 if back else 7):
            raise Unsupported("number of arguments of the C++ function")
        args["antialiase_error"] = bool(args["antialiase_error"])
        out = self.check(args["scene"], args, back)
        self.calls.append((back, args, out, {k: (a.copy() if a is not None else None) for k, a in out.items()}))
        if getattr(self, "stop", False):
            raise Infeasible
        new = lambda k, a: symbol(k, *a.dims)
        if not back:
            for k in ("image", "z_buffer") + (("err_buffer",) if args["antialiase_error"] else ()):
                self.write(out[k], new(f"out:{k}", out[k]))
        else:
            for k in GRADS:
                a = out[k + "_b"]
                if any(isinstance(d, int) and d == 0 for d in a.dims):
                    continue
                self.write(a, a.copy() + SHAPED(f"g:{k}", SHAPE[k]).reshape(a.dims))
            for k in (("err_buffer", "err_buffer_b") if args["antialiase_error"] else ("image", "image_b")):
                self.write(out[k], new(f"junk:{k}", out[k]))


def SHAPED(name, dims):
    return symbol(name, *dims)


KIND = dict(faces="u4", faces_uv="i", textured="b", shaded="b", edgeflags="b")
NDIM = dict(faces=(F, 3), faces_uv=(F, 3), ij=(V, 2), depths=(V,), textured=(F,), uv=(U, 2), shade=(V,), colors=(V, C), shaded=(F,), edgeflags=(F, 3), texture=(TH, TW, C),
            background_image=(H, W, C), background_color=(C,), uv_b=(U, 2), ij_b=(V, 2), shade_b=(V,), colors_b=(V, C), texture_b=(TH, TW, C),
            image=(H, W, C), z_buffer=(H, W), image_b=(H, W, C), obs=(H, W, C), err_buffer=(H, W), err_buffer_b=(H, W))


def own(k, n=None, empty=False):
    """An array with sizes of its own."""
    n = len(NDIM[k]) if n is None else n
    d = [B(f"n:{k}:{i}") for i in range(n)]
    if empty:
        d[0] = 0
    return symbol(k, *d, dtype=KIND.get(k, "f"))


def arguments(back, err):
    return ("image", "z_buffer") + (("image_b",) if back and not err else ()) + (("obs", "err_buffer") + (("err_buffer_b",) if back else ()) if err else ())


def call(g, s, b, back, err, use_python, sigma):
    m = g.dr if use_python else g.m
    f = getattr(m, ("renderSceneB" if back else "renderScene") + ("" if use_python else "Cpp"))
    g.scene = s
    kw = dict(antialiase_error=err)
    kw.update({k: b[k] for k in ("obs", "err_buffer") if k in b})
    if back:
        kw.update({k: b[k] for k in ("image_b", "err_buffer_b") if k in b})
    return f(s, sigma, b["image"], b["z_buffer"], **kw)


def plain_scene(**kw):
    s = types.SimpleNamespace(clockwise=False, backface_culling=True, strict_edge=True, perspective_correct=False, integer_pixel_centers=True)
    s.__dict__.update(kw)
    return s


def trusted(rep):
    rep.trusted |= {"the Cython compiler and the C++ compiler; Cython's meaning of the constructs that dv/vc/pyx.py translates", "numpy's contiguous copies: the contents of an array in row-major order"}


def v_validation(rep, back, err, use_python):
    """Scenes with arbitrary sizes: accepted ones satisfy the precondition, others are refused untouched."""
    trusted(rep)
    path = f"render_{'B' if back else ''}{'error' if err else 'image'} through {'python' if use_python else 'cython'}"
    scenekeys = [k for k in ARRAYS] + ([k + "_b" for k in GRADS] if back else [])
    args = arguments(back, err)
    variants = [("sizes", {})]
    for k in scenekeys + list(args):
        if k in ("faces", "faces_uv"):
            variants.append((f"{k} of rank 1", {k: ("rank", 1)}))
        else:
            n = len(NDIM[k])
            variants += [(f"{k} of rank {m}", {k: ("rank", m)}) for m in (n - 1, n + 1)]
        if k not in ("background_image", "background_color"):
            variants.append((f"no {k}", {k: ("none",)}))
    for k in args:
        variants += [(f"{k} not contiguous", {k: ("strided",)}), (f"{k} of type float32", {k: ("f4",)})]
    variants += [("texture empty", {"texture": ("empty", 3)}), ("texture empty of rank 2", {"texture": ("empty", 2)}), ("texture empty of rank 1", {"texture": ("empty", 1)}),
                 ("background color empty of rank 2", {"background_color": ("emptylast", 2)}),
                 ("faces of type int64", {"faces": ("i",)}), ("both backgrounds", {"background_color": ("rank", 1), "background_image": ("rank", 3)}), ("no background", {"background_image": ("none",), "background_color": ("none",)})]
    for title, change in variants:
        bgs = ("image", "color") if title == "sizes" else ("color",) if "background_color" in change else ("image",)
        for bg in bgs:
            p = Py(rep, f"{path}, background {bg}, {title}")

            def run(p):
                g = Glue(p, use_python)
                g.stop = True
                if title == "sizes":
                    p.true("the translated functions exist", hasattr(g.m, "renderSceneCpp") and hasattr(g.m, "renderSceneBCpp"))
                a = {}
                for k in scenekeys + list(args):
                    ch = change.get(k)
                    if k in ("background_image", "background_color") and ch is None and bg != k[11:]:
                        a[k] = None
                    elif ch is None:
                        a[k] = own(k) if title == "sizes" else symbol(k, *NDIM[k], dtype=KIND.get(k, "f"))
                    elif ch[0] == "rank":
                        a[k] = own(k, ch[1])
                    elif ch[0] == "none":
                        a[k] = None
                    elif ch[0] == "empty":
                        a[k] = own(k, ch[1], True)
                    elif ch[0] == "emptylast":
                        a[k] = symbol(k, C, 0)
                    elif ch[0] == "strided":
                        a[k] = symbol(k, *NDIM[k])
                        a[k].strided = True
                    else:
                        a[k] = symbol(k, *NDIM[k])
                        a[k].buf.dtype = ch[0]
                for x in a.values():
                    for d in (x.dims if x is not None else ()):
                        if not isinstance(d, int):
                            p.c.assume(cmp("<=", 0, nps.size(d)))
                s = plain_scene(height=H, width=W, nb_colors=C, **{k: a[k] for k in scenekeys})
                for d in (H, W, C, TH, TW, V, U, F):
                    p.c.assume(cmp("<=", 0, d.base.size))
                e = None
                try:
                    e = p.raises(call, g, s, {k: a[k] for k in args}, back, err, use_python, var("sigma"))
                finally:
                    if not g.calls:
                        p.true("no undefined behaviour", not isinstance(e, Undefined), str(e))
                        p.true("refused with an exception", e is not None)
                        for k, x in a.items():
                            p.true("nothing is written before an exception", x is None or x.buf.version == 0)
            p.run(run, 2000)
    p.use(PYX, "renderSceneBCpp" if back else "renderSceneCpp")
    if use_python:
        p.use(PY, "renderSceneB" if back else "renderScene")


def v_marshal(rep, back, err, use_python):
    """Consistent scenes: accepted, and passed on as they are."""
    trusted(rep)
    for bg in ("image", "color"):
        for tex in (True, False):
            for flag in range(2):
                p = Py(rep, f"render_{'B' if back else ''}{'error' if err else 'image'} through {'python' if use_python else 'cython'}, consistent scene, background {bg}, {'a' if tex else 'no'} texture")

                def run(p):
                    g = Glue(p, use_python)
                    nps.AXIOMS["faces"] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), V.base.size))]
                    nps.AXIOMS["faces_uv"] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), U.base.size))]
                    for d in (H, W, C, TH, TW, V, U, F):
                        p.c.assume(cmp("<", 0, d.base.size))
                    keys = list(ARRAYS) + [k + "_b" for k in GRADS]
                    a = {k: symbol(k, *NDIM[k], dtype="u4" if k == "faces_uv" else KIND.get(k, "f")) for k in keys}
                    if not tex:
                        a["texture"], a["texture_b"] = symbol("texture", 0, 0), symbol("texture_b", 0, 0)
                        a["textured"] = new((F,), lambda i: False, "b")
                    a["background_image" if bg == "color" else "background_color"] = None
                    flags = {k: (i + flag) % 2 == 0 for i, k in enumerate(FLAGS)}
                    if back:
                        flags["backface_culling"], flags["perspective_correct"] = True, False
                    s = plain_scene(height=H, width=W, nb_colors=C, **{**flags, **a})
                    b = {k: symbol(k, *NDIM[k]) for k in arguments(back, err)}
                    before = {k: (x.copy() if x is not None else None) for k, x in a.items()}
                    sigma = var("sigma")
                    e = p.raises(call, g, s, dict(b), back, err, use_python, sigma)
                    if not p.true("a consistent scene is accepted", e is None, f"{type(e).__name__}: {e} " + "".join(traceback.format_exception(e))[-500:] if e else ""):
                        return
                    if not p.true("one call of the C++ function", len(g.calls) == 1 and g.calls[0][0] == back):
                        return
                    _, args, out, given = g.calls[0]
                    c = args["scene"]
                    for k, d in dict(nb_triangles=F, nb_vertices=V, nb_uv=U, height=H, width=W, nb_colors=C, texture_height=TH if tex else 0, texture_width=TW if tex else 0).items():
                        p.true(f"the structure says {k}", valid(cmp("==", num(getattr(c, k)), num(d) if not isinstance(d, int) else P.of(d))))
                    for k, v in flags.items():
                        p.true(f"the structure says {k}", getattr(c, k) is v)
                    p.true("sigma is passed on", valid(cmp("==", num(args["sigma"]), sigma)))
                    p.true("the mode is passed on", args["antialiase_error"] is err)
                    for k in list(ARRAYS) + ([k + "_b" for k in GRADS] if back else []):
                        if before[k] is None:
                            p.true(f"no {k}", given[k] is None)
                        elif tex or k not in ("texture", "texture_b"):
                            got = given[k].reshape(before[k].dims)
                            if before[k].buf.dtype == "b" and got.buf.dtype != "b":
                                got = got != 0
                            p.eq(f"the C++ function gets the {k} of the scene", got, before[k])
                    for k in b:
                        p.true(f"the C++ function gets {k} itself", out[k] is b[k])
                    names = [k for k in b if out[k] is not None]
                    p.true("distinct arrays", len({id(out[k].buf) for k in out if out[k] is not None}) == len([k for k in out if out[k] is not None]))
                    for k in ARRAYS:
                        p.true(f"{k} is the array of the caller", getattr(s, k) is a[k])
                        p.true(f"{k} is not modified", a[k] is None or a[k].buf.version == 0)
                    if "obs" in b:
                        p.true("the observation is not modified", b["obs"].buf.version == 0)
                    if not back:
                        for k in ("image", "z_buffer") + (("err_buffer",) if err else ()):
                            p.eq(f"{k} is what the C++ function writes", b[k], symbol(f"out:{k}", *NDIM[k]))
                        for k in GRADS:
                            p.true("gradients are not touched", getattr(s, k + "_b") is a[k + "_b"] and a[k + "_b"].buf.version == 0)
                    else:
                        p.true("the depths are not modified", b["z_buffer"].buf.version == 0)
                        for k in GRADS:
                            if k != "texture" or tex:
                                p.eq(f"the gradient of {k} is added to the previous one", getattr(s, k + "_b"), before[k + "_b"] + symbol(f"g:{k}", *SHAPE[k]))
                        for k in flags:
                            p.true("settings unchanged", getattr(s, k) is flags[k])
                p.run(run)
    p.use(PYX, "renderSceneBCpp" if back else "renderSceneCpp")
    if use_python:
        p.use(PY, "renderSceneB" if back else "renderScene")
