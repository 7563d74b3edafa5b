"""C24: the fitters of deodr/pytorch/mesh_fitter_pytorch.py.

They are executed like the numpy ones (pyfit.py) on the symbolic tensors of pytorch.py.  A tensor
that requires a gradient is a leaf: an array of abbreviations of its values; backward() on a loss
gives every leaf the formal derivative of the loss with respect to these abbreviations (through
the images by the contract of the renderer); what leaves the graph keeps its value and has no
derivative any more."""
from .pyfit import *
from .pyfit import N  # noqa: F401
from . import pyfit, pytorch
from .sums import LETS
from .pytorch import Torch, modules, DIR

TPATH = DIR + "mesh_fitter_pytorch.py"
CUR = [None]
UNIQUE = itertools.count()


def named(prefix, n, a):
    """The array under the abbreviation prefix + n."""
    a = freeze(a)
    r = a.reader()
    canon = [list(range(d)) if isinstance(d, int) else [var(f"@{k}:{d.base.name}", "I")] for k, d in enumerate(a.dims)]
    vals = {t: num(r(t)) for t in itertools.product(*canon)}
    lv = 1 + max((LETS[x.name][0] for v in vals.values() for x in v.all_atoms() if x.kind == "fn" and x.name in LETS), default=0)

    def define(args):
        t = tuple(x.const() if isinstance(d, int) else canon[k][0] for k, (x, d) in enumerate(zip(args, a.dims)))
        return nps.rename(vals[t], {nps.atom_of(canon[k][0]): args[k] for k, d in enumerate(a.dims) if not isinstance(d, int)})
    name = f"{prefix}{n}"
    LETS[name] = (lv, define)
    if not a.dims:
        return scalar(app(name))
    return new(a.dims, lambda i: app(name, *i), a.buf.dtype)


class Module:
    """torch.nn.Module"""

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def parameters(self):
        return [v for v in self.__dict__.values() if isinstance(v, A) and getattr(v, "requires_grad", False) is True]


class Leaves(Torch):
    def __init__(self, p):
        super().__init__(p)
        CUR[0], self.id = self, next(UNIQUE)
        self.leaves, self.losses, n = [], [], [0]

        def cut(a):
            if not self.tracked(a):
                return a
            n[0] += 1
            return named(f"cut{self.id}_", n[0], a)
        cut.torch = True
        nps.DETACH[0] = self.cut = cut
        plain = self.tensor

        def tensor(x, dtype=None, requires_grad=False, **k):
            r = plain(x, dtype)
            return self.leaf(r) if requires_grad else r
        self.tensor = tensor
        self.nn.Module = Module
        self.nn.Parameter = lambda x, requires_grad=True: self.leaf(x) if requires_grad else x
        t = self

        class Optimizer:
            """An optimizer calls the closure it is given, after any history of the gradients, and
            moves the parameters it was given."""

            def __init__(self, params, **k):
                self.params = list(params)
                t.optimizers.append(self)

            def zero_grad(self, set_to_none=True):
                for a in self.params:
                    a.grad = None

            def step(self, closure):
                for k, a in enumerate(self.params):
                    a.grad = symbol(f"oldgrad{k}", *a.dims)
                r = closure()
                self.results.append((r, [a.grad for a in self.params]))
                return r
            results = []
        self.optimizers = []
        self.optim = types.SimpleNamespace(**{k: Optimizer for k in ("LBFGS", "SGD", "Adam", "RMSprop", "Adadelta", "Adagrad")})

    def leaf(self, a):
        if self.tracked(a):
            raise RuntimeError("only leaf variables can require gradients")
        r = named(f"leaf{self.id}_", len(self.leaves), a)
        r.grad, r.requires_grad, r.value_, r.prefix_ = None, True, freeze(a), f"leaf{self.id}_{len(self.leaves)}"
        self.leaves.append(r)
        return r

    def rule(self, base):
        """Derivatives do not go through what left the graph."""
        me = f"{self.id}_"

        def rule(a):
            if a.kind == "fn" and a.name.startswith("cut" + me):
                return P({})
            if a.kind == "fn" and a.name.startswith("leaf" + me):
                r = base(a)
                return P({}) if r is None else r
            return base(a)
        return through_images(self.p, rule)

    def tracked(self, a):
        """The array depends on a leaf."""
        if a.buf.dtype != "f":
            return False
        rule = self.rule(lambda at: app("d:" + at.name, *at.args) if at.kind == "fn" and at.name.startswith(f"leaf{self.id}_") else None)
        r = a.reader()
        for t in itertools.product(*[indices(d) for d in a.dims]):
            v = r(t)
            if isinstance(v, (tuple, bool)):
                continue
            try:
                if ddx(num(v), rule).m:
                    return True
            except NotImplementedError:
                return True
        return False

    def differentiate(self, loss):
        if loss.dims or not self.tracked(loss):
            raise RuntimeError("backward of a scalar of the graph expected")
        self.losses.append(loss)
        v = num(loss.item())
        for l in self.leaves:
            dims = l.dims
            g = freeze(new(dims, lambda i, l=l: ddx(v, self.rule(wrt(l.prefix_, i)))))
            if not any(num(g.at(*t) if t else g.item()).m for t in itertools.product(*[indices(d) for d in dims])):
                continue   # not in the graph of the loss
            g = named(f"cut{self.id}_g", (len(self.losses), l.prefix_), g if l.grad is None else l.grad + g)
            l.grad = g


def current(a):
    if CUR[0] is None:
        raise Unsupported("gradients without the leaves of the graph")
    return CUR[0]


def numpy_(a):
    t = CUR[0]
    if t is not None and nps.DETACH[0] is t.cut and t.tracked(a):
        raise RuntimeError("numpy() of a tensor that requires a gradient")
    return nps.DETACH[0](a)


A.numpy = numpy_
A.requires_grad_ = lambda self, requires_grad=True: current(self).leaf(self) if requires_grad else self
A.backward = lambda self: current(self).differentiate(self)


def mesh_of(base):
    class Mesh(base):
        def compute_adjacencies(self):
            pass
    return Mesh


def tsetup(p):
    for d in (H, W, V, F):
        p.c.assume(cmp("<", 0, d.base.size))
    nps.AXIOMS["faces"] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), V.base.size))]
    t, tm, td = modules(p)
    t = p.torch = Leaves(p)
    tm = load(DIR + "triangulated_mesh_pytorch.py", torch=t, DoubleTensor=t.SparseDouble, ColoredTriMesh=p.get("mesh").ColoredTriMesh, TriMeshAdjacencies=p.get("mesh").TriMeshAdjacencies)
    td = load(DIR + "differentiable_renderer_pytorch.py", torch=t, differentiable_renderer_cython=None, Camera=p.get("dr").Camera, Scene3D=p.get("dr").Scene3D)
    p.states, p.rigid, p.quats, p.evals = [], [], [], []
    _, Rigid, scipy = contracts(p, object)
    Mesh = mesh_of(tm.ColoredTriMeshPytorch)

    class Scene(scene_class(p, td.Scene3DPytorch, lambda s: s.given_)):
        """Lights by the contract of set_light (C25)."""

        def set_light(self, light_directional, light_ambient):
            super().set_light(light_directional, light_ambient)
            self.given_ = light_directional, light_ambient
    return load(TPATH, torch=t, CameraPytorch=Cam, ColoredTriMesh=Mesh, LaplacianRigidEnergy=Rigid, LaplacianRigidEnergyPytorch=Rigid, Scene3DPytorch=Scene, scipy=scipy)


def grads_of(p, loss_ok, pairs):
    """The gradient torch computed for each parameter, found by its value."""
    g = {}
    for k, values in pairs.items():
        found = [l for l in p.torch.leaves if any(pytorch.quiet(p, l.value_, v) for v in values)]
        p.true(f"one leaf of the graph for the {NAMES[k]}", len(found) == 1)
        if len(found) == 1:
            g[k] = found[0].grad
            p.true(f"the loss is differentiated with respect to the {NAMES[k]}", g[k] is not None)
    return g


def v_depth(rep):
    p = Py(rep, "PyTorch MeshDepthFitter")

    def run(p):
        m = tsetup(p)
        o, a = fitter(p, m, "depth")
        initial(p, o, a, "depth", "after construction")
        T = symbol("T", H, W)
        mx, sc = var("max_depth"), var("scale")
        p.c.assume(cmp("<", 0, mx))
        o.set_max_depth(scalar(mx))
        o.set_depth_scale(scalar(sc))
        o.set_image(T, focal=scalar(var("focal")))
        s = anystate(p, o, "depth")
        E, depth, diff = o.step()
        p.true("one rendering", len(p.states) == 1)
        st = p.states[0]
        x = centre(s["x"])
        rendered(p, o, st, s, x, s["q"], s["t"], "depth")
        p.eq("depth scale", st["options"], scalar(sc))
        p.eq("the background is the maximum depth", asA(st["bgc"]), asA([scalar(mx)]))
        img = st["image"]
        inside = lambda i: band(cmp("<=", 0, num(img.at(*i, 0))), cmp("<=", num(img.at(*i, 0)), mx))
        clip = new((H, W), lambda i: ind(inside(i)) * num(img.at(*i, 0)) + ind(cmp("<", mx, num(img.at(*i, 0)))) * mx)
        p.eq("the depth is clipped", depth, clip)
        p.eq("squared residual", diff, (clip - T) * (clip - T))
        p.true("one evaluation of the rigidity", len(p.evals) == 1)
        p.eq("rigidity of the current vertices", p.evals[0], x)
        L = total((clip - T) * (clip - T))
        p.eq("energy", asA(E), scalar(L + var("Erigid0")))
        g = grads_of(p, L, dict(x=(x, s["x"]), q=(s["q"],), t=(s["t"],)))
        for k in g:
            gradient(p, "gradient of the " + NAMES[k], L, s[k], g[k])
        updates(p, o, s, "depth", dict(g, x=g["x"] + symbol("Grigid0", V, 3)), x)
        p.true("the image is not modified", T.buf.version == 0)
        o.reset()
        initial(p, o, a, "depth", "after reset")
        for k, v in a.items():
            p.true(f"{k} is not modified", v.buf.version == 0)
    p.run(run)
    p.use(TPATH, "qrot", "mult_and_clamp", *["MeshDepthFitter." + f for f in ("__init__", "set_mesh_transform_init", "reset", "set_max_depth", "set_depth_scale", "set_image", "step")])
    trust(p)


def trust(p):
    p.rep.trusted.add("torch: contracts assumed in dv/vc/pytorch.py and dv/vc/pyfit_torch.py (functions as numpy's; backward() gives every leaf the formal derivative of the loss)")


def v_rgb(rep, lights=True, color=True):
    p = Py(rep, f"PyTorch MeshRGBFitterWithPose, lights {'updated' if lights else 'fixed'}, colour {'updated' if color else 'fixed'}")

    def run(p):
        m = tsetup(p)
        o, a = fitter(p, m, "rgb", lights, color)
        initial(p, o, a, "rgb", "after construction")
        T, bg = symbol("T", H, W, 3), symbol("bg", 3)
        o.set_background_color(bg)
        o.set_image(T, focal=scalar(var("focal")))
        s = anystate(p, o, "rgb")
        E, image, diff = o.step()
        p.true("one rendering", len(p.states) == 1)
        st = p.states[0]
        x = centre(s["x"])
        rendered(p, o, st, s, x, s["q"], s["t"], "rgb")
        p.eq("background", st["bgc"], bg)
        img = st["image"]
        p.eq("the image is the rendering", image, img)
        p.eq("squared residual", diff, nps.np_sum((img - T) * (img - T), axis=2))
        p.true("one evaluation of the rigidity", len(p.evals) == 1)
        p.eq("rigidity of the current vertices", p.evals[0], x)
        L = total((img - T) * (img - T))
        p.eq("energy", asA(E), scalar(L + var("Erigid0")))
        g = grads_of(p, L, dict(x=(x, s["x"]), **{k: (asA(s[k]),) for k in ("q", "t", "mc", "ld", "la")}))
        for k in g:
            gradient(p, "gradient of the " + NAMES[k], L, asA(s[k]), g[k])
        updates(p, o, s, "rgb", dict(g, x=g["x"] + symbol("Grigid0", V, 3)), x, lights, color)
        p.true("the image is not modified", T.buf.version == 0)
        o.reset()
        initial(p, o, a, "rgb", "after reset")
        for k, v in a.items():
            p.true(f"{k} is not modified", v.buf.version == 0)
    p.run(run)
    p.use(TPATH, "qrot", "mult_and_clamp", *["MeshRGBFitterWithPose." + f for f in ("__init__", "set_mesh_transform_init", "reset", "set_background_color", "set_image", "step")])
    trust(p)


def v_energy(rep):
    """MeshDepthFitterEnergy, and MeshDepthFitterPytorchOptim that gives it to an optimizer of torch."""
    p = Py(rep, "PyTorch MeshDepthFitterEnergy")

    def run(p):
        m = tsetup(p)
        x0, f, e, t0 = symbol("x0", V, 3), symbol("faces", F, 3, dtype="i"), symbol("euler", 3), symbol("t0", 3)
        w = scalar(var("cregu"))
        p.energy = True
        opt = m.MeshDepthFitterPytorchOptim(x0, f, e, t0, cregu=w)
        o = opt.energy
        p.true("one optimizer, of the three parameters", len(p.torch.optimizers) == 1 and [id(a) for a in p.torch.optimizers[0].params] == [id(a) for a in (o._vertices, o.quaternion, o.translation)])
        p.true("one rigidity energy", len(p.rigid) == 1)
        p.eq("the rigidity energy is relative to the initial vertices", p.rigid[0].ref, x0)
        p.eq("the rigidity energy has the given weight", asA(p.rigid[0].cregu), w)
        p.true("one mesh", o.scene.mesh is o.mesh and p.rigid[0].mesh is o.mesh)
        p.eq("faces of the mesh", o.mesh.faces, f)
        p.eq("initial vertices", o._vertices, x0)
        p.true("initial rotation", len(p.quats) == 1 and p.quats[0][0] == "zyx")
        p.eq("initial rotation", p.quats[0][1], e)
        p.eq("initial rotation", o.quaternion, symbol("quat0", 4))
        p.eq("initial translation", o.translation, t0)
        T = symbol("T", H, W)
        mx, sc = var("max_depth"), var("scale")
        p.c.assume(cmp("<", 0, mx))
        opt.set_max_depth(scalar(mx))
        opt.set_depth_scale(scalar(sc))
        opt.set_image(T, focal=scalar(var("focal")))
        s = dict(x=symbol("x", V, 3), q=symbol("q", 4), t=symbol("t", 3))
        leaves = {}
        for k, name in (("x", "_vertices"), ("q", "quaternion"), ("t", "translation")):
            leaves[k] = p.torch.leaf(s[k])
            setattr(o, name, leaves[k])
        p.torch.optimizers[0].params = list(leaves.values())
        E, depth, diff = opt.step()
        p.true("the energy is evaluated once", len(p.states) == 1 and len(p.torch.optimizers[0].results) == 1)
        st = p.states[0]
        x = centre(s["x"])
        rendered(p, o, st, s, x, s["q"], s["t"], "depth")
        p.eq("depth scale", st["options"], scalar(sc))
        p.eq("the background is the maximum depth", asA(st["bgc"]), asA([scalar(mx)]))
        img = st["image"]
        inside = lambda i: band(cmp("<=", 0, num(img.at(*i, 0))), cmp("<=", num(img.at(*i, 0)), mx))
        clip = new((H, W), lambda i: ind(inside(i)) * num(img.at(*i, 0)) + ind(cmp("<", mx, num(img.at(*i, 0)))) * mx)
        p.eq("the depth is clipped", depth, clip)
        p.eq("squared residual", diff, (clip - T) * (clip - T))
        p.true("one evaluation of the rigidity", len(p.evals) == 1)
        p.eq("rigidity of the current vertices", p.evals[0], s["x"])
        L = total((clip - T) * (clip - T)) + var("Erigid0")
        r, grads = p.torch.optimizers[0].results[0]
        p.eq("energy", asA(E), scalar(L))
        p.eq("the energy is what the optimizer minimises", asA(r), scalar(L))
        for k, g in zip("xqt", grads):
            p.true(f"the energy is differentiated with respect to the {NAMES[k]}", g is not None)
            if g is not None:
                gradient(p, "gradient of the " + NAMES[k], L, s[k], g)
        p.true("the image is not modified", T.buf.version == 0)
        for k, v in (("vertices", x0), ("faces", f), ("euler", e), ("translation", t0)):
            p.true(f"{k} is not modified", v.buf.version == 0)
    p.run(run)
    p.use(TPATH, "qrot", *["MeshDepthFitterEnergy." + f for f in ("__init__", "set_max_depth", "set_depth_scale", "set_image", "forward")], *["MeshDepthFitterPytorchOptim." + f for f in ("__init__", "set_image", "set_max_depth", "set_depth_scale", "step")])
    trust(p)
