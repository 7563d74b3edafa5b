"""C25: the PyTorch interface of deodr/pytorch.

A tensor is a symbolic array.  torch is used by assumed contracts: its functions are those of
numpy under other names, and backward() applies the formal derivative of what was computed
from tensors, except through torch.autograd.Function, where it calls the class's backward.
What leaves the graph (detach, numpy, torch.tensor) has no derivative: in the runs that check
differentiation, a value that depends on an input and leaves the graph becomes an array of
new symbols, so that a result that goes through it is not equal to its specification any more."""
import types
from .pyver import *
from . import pymesh, pycam, pyrigid, pyscene3d
from .pyload import load
from .pyscene import V, F, H, W, C, Cpp
from .pyscene3d import Camera, mesh_class, luminosity, geometry, flags, options, inputs_unchanged

DIR = "deodr/pytorch/"


def depends(a, inputs):
    r = a.reader()

    def rule(at):
        return app("d:" + at.name, *at.args) if at.kind in ("fn", "var") and (at.name in inputs if isinstance(inputs, set) else at.name.startswith(inputs)) else None
    for t in itertools.product(*[indices(d) for d in a.dims]):
        v = r(t)
        if isinstance(v, (tuple, bool)):
            return False
        try:
            if ddx(num(v), rule).m:
                return True
        except NotImplementedError:
            return True
    return False


def clamp(a, min=None, max=None):
    """torch.clamp; its gradient is that of its argument on the bounds too."""
    lo, hi = [None if b is None else asA(b) for b in (min, max)]
    if any(b is not None and b.dims for b in (lo, hi)):
        raise Unsupported("clamp by tensors")
    lo, hi = [None if b is None else num(b.item()) for b in (lo, hi)]
    if lo is not None and hi is not None and nps.truth(cmp("<", hi, lo)):
        return a * 0 + scalar(hi)

    def f(x):
        x = num(x)
        inside = band(*([] if lo is None else [cmp("<=", lo, x)]), *([] if hi is None else [cmp("<=", x, hi)]))
        r = ind(inside) * x
        if lo is not None:
            r = r + ind(cmp("<", x, lo)) * lo
        return r if hi is None else r + ind(cmp("<", hi, x)) * hi
    r = asA(a).reader()
    return new(asA(a).dims, lambda i: f(r(i)))


def tnorm(a, p="fro", dim=None, keepdim=False, ord="fro", axis=None, dtype=None, keepdims=False):
    """torch.norm, torch.linalg.norm and vector_norm, Tensor.norm: of order two only."""
    for o in (p, ord):
        if o not in ("fro", None) and not (isinstance(o, (int, float)) and o == 2):
            raise Unsupported("norm of another order")
    return nps.np_norm(a, None, dim if axis is None else axis, keepdim or keepdims)


class Torch:
    """The torch module, for one path.  inputs: names of the arrays the user differentiates with respect to (None: values only)."""

    def __init__(self, p, inputs=None):
        t, n = self, [0]
        self.p, self.applied, self.inside = p, [], 0

        def cut(a):
            if inputs is None or t.inside or a.buf.dtype != "f" or not depends(a, inputs):
                return a
            n[0] += 1
            return symbol(f"detached{n[0]}", *a.dims)
        cut.torch = True
        nps.DETACH[0] = cut
        t.Tensor = A
        for k in ("double", "float64"):
            setattr(t, k, nps.F64)
        t.float32 = t.float = nps.DType("f4")
        t.int64 = t.long = t.int32 = nps.DType("i")
        t.bool = nps.DType("b")

        def axis(dim, k):
            if "axis" in k:
                dim = k.pop("axis")
            keep = k.pop("keepdim", k.pop("keepdims", False))
            k.pop("dtype", None)
            if k:
                raise Unsupported(f"torch arguments {sorted(k)}")
            return dim, keep
        t.sum = lambda a, dim=None, **k: nps.np_sum(a, *axis(dim, k))
        t.mean = lambda a, dim=None, **k: nps.np_mean(a, *axis(dim, k))
        t.swapaxes = lambda a, i, j: nps.np_swapaxes(a, i, j)
        t.index_select = lambda a, dim, i: nps.np_take(a, i, dim)
        t.unbind = lambda a, dim=0: a.unbind(dim)
        t.outer = lambda a, b: a[:, None] * b[None, :]
        t.repeat_interleave = lambda a, n, dim=None: nps.np_repeat(a, n, dim)
        t.tile = lambda a, s: nps.np_tile(a, s)
        t.broadcast_to = nps.np_broadcast_to
        t.t = lambda a: a.T
        t.permute = lambda a, d: a.transpose(*d)
        t.cat = t.concat = lambda l, dim=0: nps.np_concatenate(list(l), dim)
        t.stack = lambda l, dim=0: nps.np_stack(list(l), dim)
        size = lambda s: s[0] if len(s) == 1 else s
        t.ones = lambda *s, dtype=None, **k: nps.np_ones(size(s), dtype or nps.F64)
        t.zeros = lambda *s, dtype=None, **k: nps.np_zeros(size(s), dtype or nps.F64)
        t.empty = lambda *s, dtype=None, **k: nps.np_empty(size(s), dtype or nps.F64)
        t.full = lambda s, v, dtype=None, **k: nps.np_full(s, v)
        t.ones_like = lambda a, **k: nps.np_ones(a.dims)
        t.zeros_like = lambda a, **k: nps.np_zeros(a.dims)
        t.arange = lambda *a, **k: nps.np_arange(*a)
        t.tensor = lambda x, dtype=None, **k: cut(nps.np_array(x, dtype))
        t.as_tensor = lambda x, dtype=None, **k: nps.np_asarray(x, dtype)
        t.from_numpy = asA
        t.DoubleTensor, t.LongTensor = lambda x: asA(x).copy(), lambda x: asA(x).copy()
        t.Size = tuple
        t.relu = lambda a: nps.elementwise(nps.vmax, a, asA(0))
        t.clamp = t.clip = clamp
        t.maximum = t.max_ = lambda a, b: nps.elementwise(nps.vmax, a, b)
        t.minimum = lambda a, b: nps.elementwise(nps.vmin, a, b)
        t.sqrt, t.abs = nps.np_sqrt, nps.np_abs
        t.square = lambda a: a * a
        t.matmul = t.mm = t.mv = lambda a, b: a.dot(b)
        t.dot = lambda a, b: nps.np_dot(a, b)
        t.norm = tnorm
        t.add, t.sub, t.mul, t.div, t.neg = lambda a, b: a + b, lambda a, b: a - b, lambda a, b: a * b, lambda a, b: a / b, lambda a: -a
        t.pow = lambda a, n: a ** n
        t.einsum = nps.np_einsum
        t.eye = lambda n, **k: nps.np_eye(n)
        t.squeeze = lambda a, dim=None: nps.np_squeeze(a, dim)
        t.unsqueeze = lambda a, dim: nps.np_expand_dims(a, dim)
        t.is_tensor = lambda a: isinstance(a, A)
        t.reshape = lambda a, s: a.reshape(s)
        t.flatten = lambda a: a.flatten()
        t.where = nps.np_where
        t.column_stack = nps.np_column_stack
        t.vstack, t.hstack = nps.np_vstack, nps.np_hstack
        t.no_grad = None

        def cross(a, b, dim=None, axis=None):
            dim = dim if dim is not None else axis
            if dim is None:
                raise Unsupported("torch.cross without dim: the axis depends on the sizes")
            a, b = asA(a), asA(b)
            return nps.np_cross(a, b, axis=-1 if dim == max(a.ndim, b.ndim) - 1 else dim)
        t.cross = cross
        t.linalg = types.SimpleNamespace(vector_norm=t.norm, cross=lambda a, b, dim=-1: cross(a, b, dim), norm=t.norm)
        t.transpose = lambda a, i, j: a.transpose(*[{i: j, j: i}.get(k, k) for k in range(a.ndim)])
        t.nn = types.SimpleNamespace(functional=types.SimpleNamespace(relu=t.relu, normalize=lambda a, p=2.0, dim=1, eps=None: a / tnorm(a, p, dim, True)))

        def sparse(i, v, shape):
            """Contract of a sparse tensor of coordinates (repeated ones are added), and of scipy's tocoo."""
            i, v = asA(i), asA(v)
            if i.dims[0] != 2:
                raise ValueError("two rows of indices expected")
            r, c = i[0], i[1]
            sp = from_coo(r, c, v)
            if sp is not None:
                ok = len(shape) == 2 and all(nps.same_dim(x, y) or x == y for x, y in zip(shape, sp.dims))
                if not ok:
                    raise ValueError("size of the sparse tensor")
                return sp
            return nps.coo_matrix((v, (r, c)), tuple(shape))
        t.SparseDouble = sparse
        t.sparse_coo_tensor = lambda i, v, size=None, **k: sparse(i, v, size)

        class Function:
            @classmethod
            def apply(cls, *args):
                ctx = types.SimpleNamespace(saved_tensors=(), needs_input_grad=tuple(isinstance(a, A) for a in args))
                ctx.save_for_backward = lambda *x: setattr(ctx, "saved_tensors", x)
                ctx.mark_non_differentiable = lambda *x: None
                ctx.set_materialize_grads = lambda *x: None
                t.inside += 1
                try:
                    out = cls.forward(ctx, *args)
                finally:
                    t.inside -= 1
                t.applied.append(types.SimpleNamespace(cls=cls, ctx=ctx, args=args, out=out))
                return out
        t.autograd = types.SimpleNamespace(Function=Function)

    def backward(self, k, w):
        """What torch does with the gradient w of the image of the k-th call; position of the argument -> gradient."""
        a = self.applied[k]
        outs = a.out if isinstance(a.out, tuple) else (a.out,)
        self.inside += 1
        try:
            g = a.cls.backward(a.ctx, *([w] + [nps.np_zeros(o.dims) for o in outs[1:]]))
        finally:
            self.inside -= 1
        g = g if isinstance(g, tuple) else (g,)
        self.p.true("one gradient per argument of the rendering function", len(g) == len(a.args))
        return g


NNZ = [0]


def tocoo(self):
    NNZ[0] += 1
    n = B(f"NNZ{NNZ[0]}")
    row, col, data = symbol(f"coorow{NNZ[0]}", n, dtype="i"), symbol(f"coocol{NNZ[0]}", n, dtype="i"), symbol(f"coodata{NNZ[0]}", n)
    COO[NNZ[0]] = self
    return types.SimpleNamespace(row=row, col=col, data=data, shape=self.dims, nnz=n)


COO = {}


def from_coo(r, c, v):
    """The matrix whose coordinates these are, by the contract of scipy's tocoo."""
    if r.ndim != 1 or not isinstance(r.dims[0], B):
        return None
    i = indices(r.dims[0])[0]
    for k, sp in COO.items():
        names = []
        for a in (r, c, v):
            e = num(a.at(i))
            at = list(e.all_atoms())
            f = [x for x in at if x.kind == "fn"]
            names.append(f[0].name if len(e.m) == 1 and len(f) == 1 and (e - P.atom(f[0])).m == {} else None)
        if names == [f"coorow{k}", f"coocol{k}", f"coodata{k}"]:
            return sp
        if names == [f"coocol{k}", f"coorow{k}", f"coodata{k}"]:
            return sp.T
    return None


nps.Sp.tocoo = tocoo
nps.Sp.mm = nps.Sp.matmul = nps.Sp.dot
A.mm = A.matmul = A.mv = A.dot
A.sqrt = lambda self: nps.np_sqrt(self)
A.abs = lambda self: nps.np_abs(self)
A.norm = tnorm
A.pow = lambda self, n: self ** n
A.clamp = lambda self, min=None, max=None: clamp(self, min, max)
A.new_ones = lambda self, *s, **k: nps.np_ones(s[0] if len(s) == 1 else s)
A.new_zeros = lambda self, *s, **k: nps.np_zeros(s[0] if len(s) == 1 else s)
A.clamp_min = lambda self, min: clamp(self, min)
A.clamp_max = lambda self, max: clamp(self, None, max)
A.permute = lambda self, *d: self.transpose(*d)
def to(self, *a, **k):
    for x in a + tuple(k.values()):
        if isinstance(x, nps.DType) and x.k != self.buf.dtype:
            self = self.astype(x)
    return self


A.to = A.type = to
A.float = lambda self: self.astype(nps.DType("f4"))
A.mul, A.add, A.sub, A.div = lambda self, o: self * o, lambda self, o: self + o, lambda self, o: self - o, lambda self, o: self / o
A.numel = lambda self: self.size
A.clone = lambda self: self.copy()
A.contiguous = A.double = A.cpu = lambda self: self
A.view = lambda self, *s: self.reshape(*s)
A.reshape_as = A.view_as = lambda self, o: self.reshape(o.dims)
A.unsqueeze = lambda self, d: nps.np_expand_dims(self, d)
A.relu = lambda self: nps.elementwise(nps.vmax, self, asA(0))
A.cross = lambda self, o, dim=-1: nps.np_cross(self, o, axis=-1 if dim == self.ndim - 1 else dim)
A.t = lambda self: self.T
A.requires_grad = False
_sum, _mean = A.sum, A.mean
A.sum = lambda self, axis=None, keepdims=False, dim=None, keepdim=False: _sum(self, axis if dim is None else dim, keepdims or keepdim)
A.mean = lambda self, axis=None, keepdims=False, dim=None, keepdim=False: _mean(self, axis if dim is None else dim, keepdims or keepdim)
_transpose, _repeat, _flatten = A.transpose, A.repeat, A.flatten


def in_torch():
    return getattr(nps.DETACH[0], "torch", False)


def transpose(self, *d):
    """Tensor.transpose exchanges two dimensions; numpy's permutes all of them."""
    if in_torch() and len(d) == 2 and all(isinstance(k, int) for k in d):
        i, j = [k % self.ndim for k in d]
        if self.ndim > 2 or (i, j) == (0, 1):
            return nps.np_swapaxes(self, i, j)
    return _transpose(self, *d)


def repeat(self, *s, **k):
    """Tensor.repeat; numpy's has one number of repetitions and maybe an axis."""
    if k or not in_torch() or len(s) == 1 and not isinstance(s[0], (list, tuple)) and self.ndim != 1:
        return _repeat(self, *s, **k)
    return nps.np_tile(self, s[0] if len(s) == 1 else s)


def expand(self, *s):
    s = list(s[0] if len(s) == 1 and isinstance(s[0], (list, tuple)) else s)
    old = (None,) * (len(s) - self.ndim) + tuple(self.dims)
    return nps.np_broadcast_to(self, [o if isinstance(n, int) and n == -1 else n for n, o in zip(s, old)])


def flatten(self, start_dim=0, end_dim=-1):
    if (start_dim, end_dim) in ((0, -1), ("C", -1)):
        return _flatten(self)
    raise Unsupported("flatten of some dimensions")


A.transpose, A.repeat, A.expand, A.flatten = transpose, repeat, expand, flatten
A.expand_as = lambda self, o: expand(self, *o.dims)
A.square = lambda self: self * self
A.neg = lambda self: -self
A.index_select = lambda self, dim, i: nps.np_take(self, i, dim)
A.select = lambda self, dim, i: self[(slice(None),) * (dim % self.ndim) + (i,)]
A.narrow = lambda self, dim, start, n: self[(slice(None),) * (dim % self.ndim) + (slice(start, start + n),)]
A.unbind = lambda self, dim=0: tuple(self[(slice(None),) * (dim % self.ndim) + (i,)] for i in range(self.dims[dim % self.ndim]))
A.inner = A.inner if hasattr(A, "inner") else lambda self, o: nps.np_dot(self, o)


def modules(p, inputs=None):
    """The modules of the PyTorch interface in the environment of this path."""
    t = Torch(p, inputs)
    m, dr = p.get("mesh"), p.get("dr")
    tm = load(DIR + "triangulated_mesh_pytorch.py", torch=t, DoubleTensor=t.SparseDouble, ColoredTriMesh=m.ColoredTriMesh, TriMeshAdjacencies=m.TriMeshAdjacencies)
    tm.TriMesh, tm.TriMeshAdjacencies = tm.ColoredTriMeshPytorch, tm.TriMeshAdjacenciesPytorch
    td = load(DIR + "differentiable_renderer_pytorch.py", torch=t, differentiable_renderer_cython=p.env._m.get("cpp"), Camera=dr.Camera, Scene3D=dr.Scene3D)
    p.env._m.update(torch=t, torch_mesh=tm, torch_dr=td)
    return t, tm, td


class PyT(Py):
    """Runs whose modules include the PyTorch interface, differentiated with respect to inputs."""
    inputs = None

    def get(self, m):
        if m.startswith("torch") and m not in self.env._m:
            modules(self, self.inputs)
        return self.env.get(m)

    def eq(self, name, got, want):
        if isinstance(got, A) and depends(got, "detached"):
            self.rep.fail(self.name + ": " + name, "computed from a value cut from the differentiation graph")
            return False
        return super().eq(name, got, want)


def v_normals(rep, cws=(False, True)):
    class N(PyT):
        inputs = {"x", "y", "z", "fn"}
    old = pymesh.Py
    pymesh.Py = N
    try:
        pymesh.v_normals(rep, cws, (False,), "torch_mesh")
    finally:
        pymesh.Py = old
    for cw in cws:
        p = PyT(rep, f"TriMeshAdjacenciesPytorch.edge_on_silhouette, {'clockwise' if cw else 'counterclockwise'}")

        def sil(p):
            base = p.get("mesh").TriMeshAdjacencies
            seen = []
            s = symbol("silhouette", F, 3, dtype="b")
            base.edge_on_silhouette = lambda self, q: seen.append((self, q.copy())) or s
            q = symbol("q", V, 2)
            ad, f = pymesh.adjacencies(p, cw, "torch_mesh")
            out = ad.edge_on_silhouette(q)
            p.true("the numpy function is used", len(seen) == 1 and seen[0][0] is ad)
            p.eq("for the same points", seen[0][1], q)
            p.eq("and its flags returned", out, s)
            o = p.get("torch_mesh").ColoredTriMeshPytorch(f, symbol("x", V, 3), clockwise=cw, colors=symbol("col", V, 3))
            res = []
            e = p.raises(lambda: res.append(o.edge_on_silhouette(q)))
            if e is not None:
                if pymesh.ORIENTATION in str(e):
                    raise e
                p.true("refused only if it is not manifold", not o.adjacencies.is_manifold)
                return
            out = res[0]
            p.true("mesh: the adjacency is used", len(seen) == 2 and isinstance(seen[1][0], p.get("torch_mesh").TriMeshAdjacenciesPytorch))
            p.true("mesh: orientation", seen[1][0].clockwise is cw)
            p.eq("mesh: for the same points", seen[1][1], q)
            p.eq("mesh: and its flags returned", out, s)
            p.unchanged("arguments", points=q, faces=f)
        p.run(sil, refused=pymesh.ORIENTATION)
    p.use(DIR + "triangulated_mesh_pytorch.py", "TriMeshAdjacenciesPytorch.__init__", "TriMeshAdjacenciesPytorch.compute_face_normals", "TriMeshAdjacenciesPytorch.compute_vertex_normals",
          "TriMeshAdjacenciesPytorch.edge_on_silhouette", "ColoredTriMeshPytorch.__init__", "ColoredTriMeshPytorch.compute_adjacencies", "ColoredTriMeshPytorch.set_vertices_colors")
    p.rep.trusted.add("torch: contracts assumed in dv/vc/pytorch.py (functions as numpy's; backward() applies the formal derivative, and the backward of torch.autograd.Function)")


def v_camera(rep):
    for dist in (False, True):
        p = PyT(rep, "CameraPytorch.project_points " + ("with" if dist else "without") + " distortion")
        p.inputs = {"X"}

        def run(p):
            ext, k = symbol("ext", 3, 4), symbol("K", 2, 3)
            intr = nps.np_vstack((k, asA([0, 0, 1])))
            d = symbol("dist", 5) if dist else None
            cam = p.get("torch_dr").CameraPytorch(ext, intr, var("H", "I"), var("W", "I"), d)
            N = B("N")
            pts = symbol("X", N, 3)
            uv, z = cam.project_points(pts)

            def want(i):
                return pycam.spec_project(ext, intr, d, [num(pts.at(i, j)) for j in range(3)])
            p.eq("image coordinates", uv, new((N, 2), lambda t: want(t[0])[0][t[1]]))
            p.eq("depths", z, new((N,), lambda t: want(t[0])[1]))
            p.eq("image coordinates alone", cam.project_points(pts, return_depths=False), uv)
            st = {}
            uv3, z3 = cam.project_points(pts, True, st)
            p.eq("image coordinates when stored", uv3, uv)
            p.eq("depths when stored", z3, z)
            p.eq("camera frame", cam.world_to_camera(pts), new((N, 3), lambda t: sum((num(ext.at(t[1], k)) * num(pts.at(t[0], k)) for k in range(3)), P.of(0)) + num(ext.at(t[1], 3))))
            p.true("size", nps.truth(band(cmp("==", num(cam.height), var("H", "I")), cmp("==", num(cam.width), var("W", "I")))))
            p.unchanged("arguments", points=pts, extrinsic=ext)
        p.run(run)
    p.use(DIR + "differentiable_renderer_pytorch.py", "CameraPytorch.__init__", "CameraPytorch.world_to_camera", "CameraPytorch.left_mul_intrinsic", "CameraPytorch.column_stack")
    p.use("deodr/differentiable_renderer.py", "Camera.__init__", "Camera.project_points")


def v_rigid(rep):
    for diff in (True, False):
        p = PyT(rep, f"LaplacianRigidEnergyPytorch, {'differentiated' if diff else 'values'}")

        def run(p):
            m, mesh, lap, adj, n = pyrigid.setup(p)
            p.c.assume(cmp("==", n, 1))
            COO.clear()
            t = Torch(p, {"y"} if diff else None)
            tl = load(DIR + "laplacian_rigid_energy_pytorch.py", torch=t, DoubleTensor=t.SparseDouble, LaplacianRigidEnergy=m.LaplacianRigidEnergy, spmatrix=object, ColoredTriMeshPytorch=object)
            ref, y, w = symbol("ref", V, 3), symbol("y", V, 3), var("cregu")
            ref0 = ref.copy()
            y.requires_grad = diff
            o = tl.LaplacianRigidEnergyPytorch(mesh, ref, scalar(w))
            p.unchanged("arguments", reference=ref)
            ref.assign(symbol("later", V, 3))
            E, g, H_ = o.evaluate(y)
            d = lambda j, k: num(y.at(j, k)) - num(ref0.at(j, k))
            want = w / 2 * nps.sum_dim(V, lambda i: sum((nps.sum_dim(V, lambda j: lap.fn(i, j) * d(j, k)) ** 2 for k in range(3)), P.of(0)))
            p.eq("half the weight times the squared Laplacian of the displacement", asA(E), asA(want))
            p.adjoint("the gradient is the derivative of the energy", num(asA(want).item()), y, g)
            p.true("the Hessian of the numpy energy", H_ is o.numpy_imp.approx_hessian)
            i, j = indices(V)[0], indices(V)[0]
            for k in range(3):
                for l in range(3):
                    p.zero("the Hessian of the numpy energy as a tensor", num(o.approx_hessian.fn(("p", i, k), ("p", j, l))) - num(H_.fn(("p", i, k), ("p", j, l))))
            E2, g2, _ = o.evaluate(y)
            p.eq("same energy when asked again", asA(E2), asA(E))
            p.eq("same gradient when asked again", g2, g)
            p.unchanged("arguments", vertices=y)
        p.run(run)
    p.use(DIR + "laplacian_rigid_energy_pytorch.py", "scipy_sparse_to_torch", "LaplacianRigidEnergyPytorch.__init__", "LaplacianRigidEnergyPytorch.evaluate")
    p.use(pyrigid.PATH, "LaplacianRigidEnergy.__init__", "LaplacianRigidEnergy.evaluate")


def setup(p, background="image", cw=False, integer=True, channels=None, inputs=None):
    p.cpp = p.env._m["cpp"] = Cpp(p)
    t, tm, td = modules(p, inputs)
    nps.AXIOMS["faces"] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), V.base.size))]
    for d in (H, W, C, V, F):
        p.c.assume(cmp("<", 0, d.base.size))
    M = mesh_class(p, tm.ColoredTriMeshPytorch)
    M.compute_adjacencies = lambda self: None
    c = channels or C
    x, f, col = symbol("x", V, 3), symbol("faces", F, 3, dtype="i"), symbol("col", V, c)
    m = object.__new__(M)
    m.seen_, m.silhouettes_, m.normals_b_ = [], [], []
    m.check_orientation = lambda: None
    M.__init__(m, faces=f, vertices=x, clockwise=cw, colors=col)
    m.set_vertices_colors(col)
    sigma = var("sigma")
    p.c.assume(cmp("<=", 0, sigma))
    s = td.Scene3DPytorch()
    s.sigma, s.integer_pixel_centers = scalar(sigma), integer
    l, amb = symbol("light", 3), var("ambient")
    s.set_light(l, scalar(amb))
    s.set_mesh(m)
    bg = symbol("bg", H, W, c) if background == "image" else symbol("bgc", c)
    if background == "image":
        s.set_background_image(bg)
    else:
        s.set_background_color(bg)
    return t, s, m, dict(x=x, faces=f, col=col, light=l, amb=amb, sigma=sigma, bg=bg)


def quiet(p, a, b):
    return isinstance(a, A) and len(a.dims) == len(b.dims) and pyscene3d.same_quiet(p, a, b)


def place(p, name, args, want):
    k = [n for n, a in enumerate(args) if quiet(p, a, want)]
    p.true(f"{name} are an argument of the rendering function, still in the graph", len(k) == 1)
    return k[0] if k else None


def lit(a, k=0, l=None):
    lum = luminosity(a if l is None else dict(a, light=l), k)
    return new((V, C), lambda i: num(a["col"].at(i[0], i[1])) * num(lum.at(i[0])))


def v_render(rep):
    inputs = {"x", "col", "light", "ambient", "normals0", "ij:a0", "depth:a0"}
    for cw, integer, cull, bg in ((False, True, True, "image"), (True, False, False, "color")):
        for depth in (False, True):
            p = Py(rep, f"Scene3DPytorch.{'render_depth' if depth else 'render'}, clockwise={cw} integer_centers={integer} culling={cull} {bg}")

            def run(p):
                t, s, m, a = setup(p, bg, cw, integer, 1 if depth else None)
                cam, scale = Camera(p, "a"), var("scale")
                if depth:
                    image = s.render_depth(cam, scalar(scale), backface_culling=cull)
                else:
                    image, z = s.render(cam, return_z_buffer=True, backface_culling=cull)
                p.true("one rendering", len(p.cpp.fwd) == 1 and not p.cpp.fwd[0]["err"])
                f = p.cpp.fwd[0]
                sc = f["scene"]
                p.eq("image of the 2D scene", image, f["image"])
                if not depth:
                    p.eq("depths of the 2D scene", z, f["z"])
                geometry(p, s, m, a, sc, cam)
                flags(p, m, a, sc, cam)
                p.true("width of the scene", cmp("==", num(asA(f["sigma"]).item()), a["sigma"]))
                options(p, sc, clockwise=cw, perspective_correct=False, integer_pixel_centers=integer, backface_culling=cull, strict_edge=True, height=H, width=W, nb_colors=1 if depth else C,
                        background_image=a["bg"] if bg == "image" else None, background_color=a["bg"] if bg != "image" else None)
                for k in ("textured", "shaded"):
                    p.eq(f"no {k} triangles", sc[k], new((F,), lambda i: False, "b"))
                want = new((V, 1), lambda i: num(symbol("depth:a0", V).at(i[0])) * scale) if depth else lit(a)
                p.eq("depths times the scale" if depth else "lit colours", sc["colors"], want)
                again = s.render_depth(cam, scalar(scale), backface_culling=cull) if depth else s.render(cam, backface_culling=cull)
                p.eq("same image again", again, f["image"])
                inputs_unchanged(p, "rendering", a)
            p.run(run)
            p = Py(rep, f"Scene3DPytorch.{'render_depth' if depth else 'render'} differentiated, clockwise={cw} integer_centers={integer} culling={cull} {bg}")

            def graph(p):
                t, s, m, a = setup(p, bg, cw, integer, 1 if depth else None, inputs)
                cam, scale = Camera(p, "a"), var("scale")
                image = s.render_depth(cam, scalar(scale), backface_culling=cull) if depth else s.render(cam, backface_culling=cull)
                p.true("rendered by the differentiable function", len(t.applied) == 1)
                f = t.applied[0]
                p.eq("whose image is returned", image, f.out[0] if isinstance(f.out, tuple) else f.out)
                want = new((V, 1), lambda i: num(symbol("depth:a0", V).at(i[0])) * scale) if depth else lit(a)
                place(p, "positions", f.args, symbol("ij:a0", V, 2))
                place(p, "colours", f.args, want)
            p.run(graph)
    p.use(DIR + "differentiable_renderer_pytorch.py", "Scene3DPytorch.__init__", "Scene3DPytorch.set_light", "Scene3DPytorch._compute_vertices_colors_with_illumination", "Scene3DPytorch._render_2d",
          "TorchDifferentiableRenderer2DFunc.forward")
    p.use("deodr/differentiable_renderer.py", "Scene3D.render", "Scene3D.render_depth", "Scene2D.__init__")


def v_function(rep):
    for cw, integer in ((False, True), (True, False)):
        p = Py(rep, f"TorchDifferentiableRenderer2DFunc, several renderings in a loss, clockwise={cw} integer_centers={integer}")

        def run(p):
            t, s, m, a = setup(p, "image", cw, integer)
            A_, B_ = Camera(p, "a"), Camera(p, "b")
            w = [symbol(f"w{i}", H, W, C) for i in range(6)]
            colors, ij = {}, {}
            results = []

            def render(cam, k, vid=0, light=None):
                n = len(p.cpp.fwd)
                im, z = s.render(cam, return_z_buffer=True)
                p.true("one rendering by the differentiable function", len(p.cpp.fwd) == n + 1 and len(t.applied) == n + 1)
                ij[n], colors[n] = symbol(f"ij:{cam.name}{k}", V, 2), lit(a, vid, light)
                return n, im, z

            def backward(n, w, out=None):
                """The gradients of rendering n are those of rendering n."""
                p.cpp.current = n
                k = len(p.cpp.bwd)
                keep = out.copy() if out is not None else None
                g = t.backward(n, w)
                p.true("one backward rendering", len(p.cpp.bwd) == k + 1)
                if len(p.cpp.bwd) != k + 1:
                    return None
                b = p.cpp.bwd[k]
                p.eq("the gradient of the image is differentiated", b["g"], w)
                p.unchanged("backward", gradient=w)
                if keep is not None:
                    p.eq("backward: the image is not modified", out, keep)
                args = t.applied[n].args
                i, c = place(p, "positions", args, ij[n]), place(p, "colours", args, colors[n])
                if i is None or c is None:
                    return None
                for q, x in enumerate(g):
                    p.true("no other gradient", q in (i, c) or x is None)
                p.true("gradients of positions and colours", g[i] is not None and g[c] is not None)
                e = (p.cpp.grad("ij", b["id"], V, 2), p.cpp.grad("colors", b["id"], V, C))
                results.append((g[i], e[0], "positions"))
                results.append((g[c], e[1], "colours"))
                for r, e, what in results:
                    p.eq(f"gradient of the {what}", r, e)
                return b["id"]
            # one rendering
            n0, im0, z0 = render(A_, 0)
            i0 = backward(n0, w[0], im0)
            # its image is used again
            p.true("differentiated again: the same", backward(n0, w[0], im0) == i0)
            backward(n0, w[1], im0)
            # two views, differentiated in any order
            n1, im1, z1 = render(B_, 0)
            n2, im2, z2 = render(A_, 0)
            backward(n1, w[2], im1)
            backward(n2, w[3], im2)
            backward(n1, w[4], im1)
            p.true("differentiated again: the same", backward(n0, w[0], im0) == i0)
            # the user reuses images, depths and settings
            l2 = symbol("light2", 3)
            s.set_light(l2, scalar(a["amb"]))
            s.sigma = scalar(var("sigma2"))
            p.c.assume(cmp("<", 0, var("sigma2")))
            m.set_vertices(symbol("y", V, 3))
            n3, im3, z3 = render(A_, 1, 1, l2)
            s.sigma = scalar(a["sigma"])
            for x in (im0, im1, im3, z0, z1, z3):
                x.assign(symbol("user", *x.dims))
            backward(n1, w[2])
            backward(n3, w[5])
            p.true("differentiated again: the same", backward(n0, w[0]) == i0)
            inputs_unchanged(p, "rendering and backward", a)
        p.run(run)
    p.use(DIR + "differentiable_renderer_pytorch.py", "TorchDifferentiableRenderer2DFunc.forward", "TorchDifferentiableRenderer2DFunc.backward")
    p.rep.trusted.add("renderSceneCpp and renderSceneBCpp: contract stated in dv/vc/pyscene.py (the Cython functions are under contract in dv/vc/pyglue.py, the C++ functions they call in C01-C10)")
