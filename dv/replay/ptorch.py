"""PyTorch interface: C25, and the PyTorch fitters of C24."""
import numpy as np
from . import meshes as M
from . import p3d
from ..oracle import raster
from .core import test, diff, first, csgrad


def T(x, grad=False):
    import torch
    return torch.tensor(x, dtype=torch.float64, requires_grad=grad)


def cam_t(c):
    from deodr.pytorch import CameraPytorch
    return CameraPytorch(c["ext"].copy(), c["intr"].copy(), c["H"], c["W"], None if c["dist"] is None else c["dist"].copy())


@test("C25", "projection", 60)
class _:
    def gen(rng, i):
        p = rng.randn(int(rng.choice([1, 2, 5])), 3)
        return dict(cam=p3d.camera(rng, look=p), p=p, b=rng.randn(len(p), 2), zb=rng.randn(len(p)))

    def run(c):
        x = T(c["p"], True)
        a, z = cam_t(c["cam"]).project_points(x)
        e, ze = M.project(c["cam"], c["p"])
        ((a * T(c["b"])).sum() + (z * T(c["zb"])).sum()).backward()

        def f(p):
            a, z = M.project(c["cam"], p)
            return (a * c["b"]).sum() + (z * c["zb"]).sum()
        return first(diff("projection", a.detach().numpy(), e), diff("depth", z.detach().numpy(), ze), diff("gradient", x.grad.numpy(), csgrad(f, c["p"])))


@test("C25", "normals", 60)
class _:
    def gen(rng, i):
        c = p3d.mesh_case(rng, i)
        c["b"] = rng.randn(*c["v"].shape)
        return c

    def run(c):
        from deodr.pytorch import ColoredTriMeshPytorch
        m = ColoredTriMeshPytorch(c["f"].copy(), c["v"].copy(), clockwise=c["cw"], colors=np.zeros((len(c["v"]), 1)))
        x = T(c["v"], True)
        m.set_vertices(x)
        n = m.vertex_normals
        (n * T(c["b"])).sum().backward()
        return first(diff("normals", n.detach().numpy(), M.vertex_normals(c["f"], c["v"], c["cw"])), diff("face normals", m.face_normals.detach().numpy(), M.face_normals(c["f"], c["v"], c["cw"])),
                     diff("gradient", x.grad.numpy(), csgrad(lambda v: (M.vertex_normals(c["f"], v, c["cw"]) * c["b"]).sum(), c["v"]), 1e-6),
                     diff("silhouette", np.asarray(m.edge_on_silhouette(T(c["v"][:, :2]))), M.silhouette(c["f"], c["v"][:, :2], c["cw"])[0]))


@test("C25", "rigidity energy", 40)
class _:
    def gen(rng, i):
        c = p3d.mesh_case(rng, i)
        c.update(x=rng.randn(*c["v"].shape), cregu=float(rng.uniform(.1, 100)))
        return c

    def run(c):
        from deodr.pytorch import ColoredTriMeshPytorch, LaplacianRigidEnergyPytorch
        m = ColoredTriMeshPytorch(c["f"].copy(), c["v"].copy(), clockwise=c["cw"], colors=np.zeros((len(c["v"]), 1)))
        e = LaplacianRigidEnergyPytorch(m, c["v"].copy(), c["cregu"])
        E = p3d.laplacian_energy(c, c["x"], c["v"])
        G = csgrad(lambda x: p3d.laplacian_energy_c(c, x, c["v"]), c["x"])
        x = T(c["x"], True)
        a, g, _ = e.evaluate(x)
        a.backward()
        a2, g2, _ = e.evaluate(T(c["x"]))
        return first(diff("energy", a.detach().numpy(), E), diff("energy without gradient", a2.numpy(), E), diff("gradient", x.grad.numpy(), G), diff("returned gradient", g.detach().numpy(), G),
                     diff("returned gradient", g2.numpy(), G))


def scene_t(c, depth=False):
    from deodr.pytorch import ColoredTriMeshPytorch, Scene3DPytorch
    s = Scene3DPytorch()
    s.sigma, s.integer_pixel_centers = c["sigma"], c["ipc"]
    m = ColoredTriMeshPytorch(c["f"].copy(), c["v"].copy(), clockwise=c["cw"], colors=c["col"].copy())
    s.set_mesh(m)
    if c["bgi"] is not None:
        s.set_background_image((c["bgi"][:, :, :1] if depth else c["bgi"]).copy())
    else:
        s.set_background_color((c["bgc"][:1] if depth else c["bgc"]).copy())
    return s, m


@test("C25", "rendering and gradients", 60)
class _:
    def gen(rng, i):
        c = p3d.scene3d_case(rng, i, grad=True)
        if c["light"] is None:
            c["light"] = rng.randn(3)
        c["w"] = rng.randn(c["cam"]["H"], c["cam"]["W"], c["col"].shape[1])
        c["cam2"] = p3d.camera(rng, c["cam"]["H"], c["cam"]["W"], look=c["v"])
        c["mode"] = ["once", "two views", "expanded gradient", "used twice", "sigma changed later", "image modified"][i % 6]
        return c

    def run(c):
        import torch
        if not p3d.flags_stable(c) or not p3d.flags_stable(dict(c, cam=c["cam2"])):
            return None
        s, m = scene_t(c)
        v, col, light, amb = T(c["v"], True), T(c["col"], True), T(c["light"], True), T(c["amb"], True)
        m.set_vertices(v)
        m.set_vertices_colors(col)
        s.set_light(light, amb)
        sp = p3d.scene2d_spec(c)
        r = raster.forward(sp, c["sigma"], grad=True)
        w = c["w"].copy()
        w[r["amb"]] = 0
        w2 = None
        cam = cam_t(c["cam"])
        im, z = s.render(cam, return_z_buffer=True)
        r0 = raster.forward(sp, 0)
        ok = ~r0["amb"]
        if tuple(z.shape) != ok.shape:
            return f"depth buffer: shape {tuple(z.shape)} instead of {ok.shape}"
        e = diff("depth buffer", np.where(ok, np.asarray(z), 0), np.where(ok, r0["z"], 0), 1e-6)
        if e:
            return e
        if c["mode"] == "two views":
            c2 = dict(c, cam=c["cam2"])
            r2 = raster.forward(p3d.scene2d_spec(c2), c["sigma"], grad=True)
            w2 = c["w"].copy()
            w2[r2["amb"]] = 0
            m.set_vertices(v)
            im2 = s.render(cam_t(c["cam2"]))
            loss = (im * T(w)).sum() + (im2 * T(w2)).sum()
        elif c["mode"] == "expanded gradient":
            if r["amb"].any():
                return None
            w = np.ones_like(w)
            loss = im.sum()
        elif c["mode"] == "used twice":
            loss = (im * T(w)).sum()
            loss.backward(retain_graph=True)
            for x in (v, col, light, amb):
                x.grad = None
            loss = (im * T(w)).sum()
        else:
            loss = (im * T(w)).sum()
            if c["mode"] == "image modified":
                shown = im.detach().numpy().copy()
                im.data.mul_(0.5)
                im.data.add_(0.125)
                torch.autograd.backward([im], [T(w)])
                im = torch.from_numpy(shown)
            if c["mode"] == "sigma changed later":
                s.sigma = c["sigma"] + 1
        if c["mode"] != "image modified":
            loss.backward()

        def f(**k):
            e = np.where(w != 0, w * raster.forward(p3d.scene2d_spec(c, **k), c["sigma"])["image"], 0).sum()
            if w2 is not None:
                e = e + np.where(w2 != 0, w2 * raster.forward(p3d.scene2d_spec(dict(c, cam=c["cam2"]), **k), c["sigma"])["image"], 0).sum()
            return e
        return first(p3d.cmp_image("image", im.detach().numpy(), r), diff("gradient of the vertices", v.grad.numpy(), csgrad(lambda x: f(v=x), c["v"]), 2e-5),
                     diff("gradient of the colours", col.grad.numpy(), csgrad(lambda x: f(col=x), c["col"]), 2e-5), diff("gradient of the ambient light", amb.grad.numpy(), csgrad(lambda x: f(amb=x[0]), [c["amb"]])[0], 2e-5),
                     diff("gradient of the directional light", light.grad.numpy(), csgrad(lambda x: f(light=x), c["light"]), 2e-5))


@test("C25", "depth rendering and gradients", 30)
class _:
    def gen(rng, i):
        c = p3d.scene3d_case(rng, i, grad=True)
        c["w"] = rng.randn(c["cam"]["H"], c["cam"]["W"], 1)
        return c

    def run(c):
        if not p3d.flags_stable(dict(c, light=None)):
            return None
        s, m = scene_t(c, depth=True)
        v = T(c["v"], True)
        m.set_vertices(v)
        r = raster.forward(p3d.scene2d_spec(c, depth=True), c["sigma"], grad=True)
        w = c["w"].copy()
        w[r["amb"]] = 0
        im = s.render_depth(cam_t(c["cam"]), depth_scale=c["ds"])
        (im * T(w)).sum().backward()
        e = csgrad(lambda x: np.where(w != 0, w * raster.forward(p3d.scene2d_spec(c, v=x, depth=True), c["sigma"])["image"], 0).sum(), c["v"])
        return first(p3d.cmp_image("depth image", im.detach().numpy(), r), diff("gradient of the vertices", v.grad.numpy(), e, 2e-5))


@test("C24", "PyTorch RGB fitter", 16)
class _:
    gen = p3d.fit_case

    def run(c):
        from deodr.pytorch import MeshRGBFitterWithPose
        import torch
        rng = np.random.RandomState(c["seed"])
        fit = MeshRGBFitterWithPose(c["v"].copy(), c["f"].copy(), c["euler"].copy(), c["t"].copy(), c["color"].copy(), c["light"].copy(), c["amb"], cregu=c["cregu"], update_lights=c["upl"], update_color=c["upc"])
        fit.set_background_color(c["bg"].copy())
        fit.set_image(c["img"].copy(), distortion=c["dist"])
        p3d.huge_steps(fit)
        fit.vertices = fit.vertices + torch.tensor(.05 * rng.randn(*c["v"].shape))
        v0 = (fit.vertices - fit.vertices.mean(dim=0)).numpy().copy()
        q, t = np.array(fit.transform_quaternion), np.array(fit.transform_translation)

        def E(v=v0, q=q, t=t, color=c["color"], light=c["light"], amb=c["amb"]):
            r = raster.forward(p3d.spec_image(c, fit, v, q, t, color, light, amb), 1.)
            return ((r["image"] - c["img"]) ** 2).sum(), r
        e0, r = E()
        e, im, dimg = p3d.quiet(fit.step)
        if r["amb"].any():
            return None
        g = csgrad(lambda x: E(v=x)[0], v0)
        msgs = [diff("image", im, r["image"], 1e-6), diff("residual", dimg, ((r["image"] - c["img"]) ** 2).sum(axis=2), 1e-6), diff("energy", e, e0 + p3d.laplacian_energy(c, v0, c["v"]), 1e-6)]
        msgs += p3d.used_gradients(fit, c, g - g.mean(axis=0), csgrad(lambda x: E(q=x)[0], q), csgrad(lambda x: E(t=x)[0], t), c["v"], v0)
        if c["upc"]:
            msgs.append(diff("colour gradient", p3d.used(fit, fit.speed_mesh_color, 1e-5), csgrad(lambda x: E(color=x)[0], c["color"]), 1e-5))
        if c["upl"]:
            msgs += [diff("light gradient", p3d.used(fit, fit.speed_light_directional, 1e-4), csgrad(lambda x: E(light=x)[0], c["light"]), 1e-5),
                     diff("ambient gradient", p3d.used(fit, fit.speed_light_ambient, 1e-4), csgrad(lambda x: E(amb=x[0])[0], [c["amb"]])[0], 1e-5)]
        msgs += p3d.after_steps(fit, c)
        return first(*msgs)


@test("C24", "PyTorch depth fitter", 16)
class _:
    gen = p3d.fit_case

    def run(c):
        from deodr.pytorch import MeshDepthFitter
        import torch
        rng = np.random.RandomState(c["seed"])
        fit = MeshDepthFitter(c["v"].copy(), c["f"].copy(), c["euler"].copy(), c["t"].copy(), cregu=c["cregu"])
        md, ds = float(rng.uniform(4, 8)), float(rng.uniform(.5, 1.5))
        fit.set_max_depth(md)
        fit.set_depth_scale(ds)
        fit.set_image(c["depth"].copy(), distortion=c["dist"])
        p3d.huge_steps(fit)
        fit.vertices = fit.vertices + torch.tensor(.05 * rng.randn(*c["v"].shape))
        v0 = (fit.vertices - fit.vertices.mean(dim=0)).numpy().copy()
        q, t = np.array(fit.transform_quaternion), np.array(fit.transform_translation)

        def E(v=v0, q=q, t=t):
            r = raster.forward(p3d.spec_image(c, fit, v, q, t, None, None, 0., depth=(md, ds)), 1.)
            im = r["image"]
            im = np.where(np.real(im) < 0, 0, np.where(np.real(im) > md, md, im))
            return ((im - c["depth"][:, :, None]) ** 2).sum(), r, im
        e0, r, im0 = E()
        e, im, dimg = p3d.quiet(fit.step)
        if r["amb"].any() or (np.abs(im0 - md) < 1e-9).any():
            return None
        g = csgrad(lambda x: E(v=x)[0], v0)
        msgs = [diff("depth", im, im0[:, :, 0], 1e-6), diff("residual", dimg, ((im0 - c["depth"][:, :, None]) ** 2).sum(axis=2), 1e-6), diff("energy", e, e0 + p3d.laplacian_energy(c, v0, c["v"]), 1e-6)]
        msgs += p3d.used_gradients(fit, c, g - g.mean(axis=0), csgrad(lambda x: E(q=x)[0], q), csgrad(lambda x: E(t=x)[0], t), c["v"], v0)
        return first(*msgs)


@test("C24", "PyTorch depth energy", 10)
class _:
    gen = p3d.fit_case

    def run(c):
        from deodr.pytorch.mesh_fitter_pytorch import MeshDepthFitterPytorchOptim
        import torch
        rng = np.random.RandomState(c["seed"])
        opt = MeshDepthFitterPytorchOptim(c["v"].copy(), c["f"].copy(), c["euler"].copy(), c["t"].copy(), cregu=c["cregu"])
        md, ds = float(rng.uniform(4, 8)), float(rng.uniform(.5, 1.5))
        opt.set_max_depth(md)
        opt.set_depth_scale(ds)
        opt.set_image(c["depth"].copy(), focal=18.)
        fit = opt.energy
        if c["dist"] is not None:
            fit.set_image(c["depth"].copy(), focal=18., distortion=c["dist"])
        with torch.no_grad():
            fit._vertices += torch.tensor(.05 * rng.randn(*c["v"].shape))
        x0, q, t = [a.detach().numpy().copy() for a in (fit._vertices, fit.quaternion, fit.translation)]

        def E(v=x0, q=q, t=t):
            r = raster.forward(p3d.spec_image(c, fit, v - v.mean(axis=0), q, t, None, None, 0., depth=(md, ds)), 1.)
            im = r["image"]
            im = np.where(np.real(im) < 0, 0, np.where(np.real(im) > md, md, im))
            return ((im - c["depth"][:, :, None]) ** 2).sum(), r, im
        e0, r, im0 = E()
        fit._vertices.grad = torch.ones_like(fit._vertices)   # of an earlier step
        e, im, dimg = p3d.quiet(opt.step)
        if r["amb"].any() or (np.abs(im0 - md) < 1e-9).any():
            return None
        g = csgrad(lambda x: E(v=x)[0] + p3d.laplacian_energy_c(c, x, c["v"]), x0)
        return first(diff("depth", im, im0[:, :, 0], 1e-6), diff("residual", dimg, ((im0 - c["depth"][:, :, None]) ** 2).sum(axis=2), 1e-6),
                     diff("energy", e.detach().numpy(), e0 + p3d.laplacian_energy(c, x0, c["v"]), 1e-6), diff("gradient of the vertices", fit._vertices.grad.numpy(), g, 1e-5),
                     diff("gradient of the rotation", fit.quaternion.grad.numpy(), csgrad(lambda x: E(q=x)[0], q), 1e-5), diff("gradient of the translation", fit.translation.grad.numpy(), csgrad(lambda x: E(t=x)[0], t), 1e-5))
