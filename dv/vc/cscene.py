"""Contracts of checkSceneValid, renderScene and renderScene_B.

The loops over the triangles call the rasterisation functions.  They are treated by a trace
rule: the body is executed for one arbitrary triangle g_t (or for the position g_p of g_t in
the sorted list), every call of a rasterisation function is recorded as an event together with
the values of its arguments, and the events must be those of the specification, in its order.
"""
from .cedge import *
from . import loops as L

NT, NV, NUV = var("NT", "I"), var("NV", "I"), var("NUV", "I")
gt, gp, gv, gu, gc = (var(n, "I") for n in ("g_t", "g_p", "g_v", "g_u", "g_c"))
SDIMS = dict(DIMS)
SDIMS.update(NT=(-1, gt))
NSUB = ((1, 0), (2, 1), (0, 2))


def boolvar(n):
    return ("b", atom("var", n, (), "B"))


def bapp(n, *a):
    return ("b", atom("fn", n, tuple(map(P.of, a)), "B"))


# ------------------------------------------------------------------ checkSceneValid

ARRAYS = ("faces", "faces_uv", "depths", "uv", "ij", "shade", "colors", "edgeflags", "textured", "shaded", "texture")
ARRAYS_B = ("uv_b", "ij_b", "shade_b", "colors_b", "texture_b")


def scene_obj(fields):
    """The struct passed by value."""
    o = Obj("scene", [], None, "Scene")
    return o, {(k,): v for k, v in fields.items()}


def v_check(rep):
    from .cxx import Opaque
    for der in (False, True):
        names = ARRAYS + (ARRAYS_B if der else ())
        for missing in (None, "background") + names:
            def args():
                f = {}
                for n in ARRAYS + ARRAYS_B:
                    if n in ("faces", "faces_uv"):
                        p = Ptr(Obj(n, [NT, 3], lambda t, i, n=n: app(n, t, i, sort="I"), elem="unsigned int", ghosts=[gt, None], writable=False))
                    else:
                        p = Ptr(Obj(n, [var("len_" + n, "I")], lambda k, n=n: app(n, k), writable=False))
                    f[n] = NULL if n == missing else p
                f["background_image"] = NULL
                f["background_color"] = NULL if missing == "background" else Ptr(Obj("background_color", [C], lambda k: app("bg", k), writable=False))
                f.update(nb_triangles=NT, nb_vertices=NV, nb_uv=NUV)

                def sc(I):
                    o, cells = scene_obj(f)
                    I.store[o] = dict(cells)
                    return LV(o, 0, (), "Scene")
                return dict(scene=sc, has_derivatives=der)

            def pre(ctx):
                for x in (NT, NV, NUV):
                    ctx.assume(band(cmp(">=", x, 0), cmp("<=", x, 2 ** 29)))
                ctx.assume(cmp(">=", NT, 1))
                ctx.assume(band(cmp(">=", gt, 0), cmp("<", gt, NT)))
                for i in range(3):
                    ctx.assume(band(cmp(">=", face(i), 0), cmp("<", face(i), 2 ** 32), cmp(">=", face_uv(i), 0), cmp("<", face_uv(i), 2 ** 32)))

            def post(I, a, ctx):
                if missing:
                    ctx.report.fail(ctx.name + ": a missing array is refused", missing)
                    return
                for i in range(3):
                    ctx.require("every face index of an accepted scene is that of a vertex", cmp("<", face(i), NV))
                    ctx.require("every texture face index of an accepted scene is that of a texture vertex", cmp("<", face_uv(i), NUV))

            def thrown(I, a, ctx):
                if missing:
                    ctx.report.add(ctx.name + ": a missing array is refused", True, "path exploration")
                    return
                ok = ctx.valid(bor(*[x for i in range(3) for x in (cmp(">=", face(i), NV), cmp(">=", face_uv(i), NUV))]))
                ctx.report.add(ctx.name + ": valid indices are accepted", ok, "z3")
            j = SJob(rep, "checkSceneValid", f"has_derivatives={der}" + (f", {missing} missing" if missing else ""))
            j.run(args, post, pre, thrown)


class SJob(Job):
    def interp(self):
        I = super().interp()
        I.dims = SDIMS
        I.trace = []
        I.is_scene = True
        return I


# ------------------------------------------------------------------ objects of a scene

def scene_fields(bg, persp, strict, hold):
    ro = dict(writable=False)

    def index(n, bound):
        def init(t, i):
            x = app(n, t, i, sort="I")
            I = hold.get("I")
            if I is not None and getattr(I, "checked", None) is not None:
                # postcondition of checkSceneValid, for every triangle
                I.ctx.assume(band(cmp(">=", x, 0), cmp("<", x, bound)))
            return x
        return Ptr(Obj(n, [NT, 3], init, elem="unsigned int", ghosts=[gt, None], **ro))
    f = dict(
        faces=index("faces", NV), faces_uv=index("faces_uv", NUV),
        depths=Ptr(Obj("depths", [NV], lambda v: app("depths", v), ghosts=[None], **ro)),
        uv=Ptr(Obj("uv", [NUV, 2], lambda v, d: app("uv", v, d), **ro)),
        ij=Ptr(Obj("ij", [NV, 2], lambda v, d: app("ij", v, d), **ro)),
        shade=Ptr(Obj("shade", [NV], lambda v: app("shade", v), **ro)),
        colors=Ptr(Obj("colors", [NV, C], lambda v, k: app("colors", v, k), **ro)),
        edgeflags=Ptr(Obj("edgeflags", [NT, 3], lambda t, i: bapp("edgeflags", t, i), elem="bool", ghosts=[gt, None], **ro)),
        textured=Ptr(Obj("textured", [NT], lambda t: bapp("textured", t), elem="bool", ghosts=[gt], **ro)),
        shaded=Ptr(Obj("shaded", [NT], lambda t: bapp("shaded", t), elem="bool", ghosts=[gt], **ro)),
        texture=Ptr(texture("Texture", False)),
        background_image=Ptr(Obj("background_image", [H, W, C], lambda y, x, k: app("background_image", y, x, k), ghosts=[gy, gx, gk], **ro)) if bg == "image" else NULL,
        background_color=Ptr(Obj("background_color", [C], lambda k: app("background_color", k), ghosts=[gk], **ro)) if bg == "color" else NULL,
        uv_b=Ptr(Obj("uv_b", [NUV, 2], lambda v, d: app("uv_b", v, d))),
        ij_b=Ptr(Obj("ij_b", [NV, 2], lambda v, d: app("ij_b", v, d))),
        shade_b=Ptr(Obj("shade_b", [NV], lambda v: app("shade_b", v))),
        colors_b=Ptr(Obj("colors_b", [NV, C], lambda v, k: app("colors_b", v, k))),
        texture_b=Ptr(texture("Texture_B")),
        nb_triangles=NT, nb_vertices=NV, nb_uv=NUV, height=H, width=W, nb_colors=C, texture_height=TH, texture_width=TW,
        clockwise=boolvar("clockwise"), backface_culling=boolvar("backface_culling"), strict_edge=strict, perspective_correct=persp, integer_pixel_centers=boolvar("integer_pixel_centers"))
    return f


def scene_pre(ctx):
    base(ctx)
    base_tex(ctx)
    for x in (NT, NV, NUV):
        ctx.assume(band(cmp(">=", x, 0), cmp("<=", x, 2 ** 24)))
    ctx.assume(band(cmp(">=", gt, 0), cmp("<", gt, NT)))
    ctx.assume(band(cmp(">=", gp, 0), cmp("<", gp, NT)))
    # a textured triangle is shaded
    ctx.assume(bor(bnot(bapp("textured", gt)), bapp("shaded", gt)))


def face(i):
    return app("faces", gt, i, sort="I")


def face_uv(i):
    return app("faces_uv", gt, i, sort="I")


def c_check(I, args, f):
    """checkSceneValid returned: the facts of v_check for the ghost triangle."""
    ctx = I.ctx
    I.trace.append("check")
    der = args[1] if len(args) > 1 else False
    I.checked = der
    for i in range(3):
        ctx.assume(band(cmp(">=", face(i), 0), cmp("<", face(i), NV)))
        ctx.assume(band(cmp(">=", face_uv(i), 0), cmp("<", face_uv(i), NUV)))


def c_area(I, args, f):
    a = argmap(f, args)
    V = [[rd(I, a["ij"], 2 * v + d) for d in range(2)] for v in range(3)]
    s = I.ctx.branch(a["clockwise"])
    return det_of(V) * Fraction(1, 2) * (1 if s else -1)


def h_sort(I, args, f):
    """std::sort with sortcompare: the position of the ghost triangle in the order is g_p."""
    o = args[0].obj
    ok = isinstance(args[0], Ptr) and isinstance(args[1], Ptr) and args[0].off.const() == 0 and equal(args[1].off, NT) and args[1].obj == o
    I.ctx.report.add(I.ctx.name + ": the whole list of triangles is sorted with a comparator", bool(ok and f is not None), "path exploration")
    if not ok or f is None:
        raise Unsupported("sort")
    compare(I.ctx, f)
    val = I.read(o, (gt, "value"), "double")
    idx = I.read(o, (gt, "index"), "size_t")
    I.ctx.require("the triangles are sorted by the sum of the depths of their vertices", band(cmp("==", val, sum((app("depths", face(i)) for i in range(3)), P.of(0))), cmp("==", idx, gt)))
    I.store[o] = {(gp, "index"): gt, (gp, "value"): val, "#stale": True}
    I.sorted = o
    I.trace.append("sort")


def compare(ctx, f):
    """The comparator of the sort orders the triangles by decreasing value."""
    def once(c):
        I = Interp(prog(), c, "real", {}, SDIMS)
        objs = []
        for n in ("left", "right"):
            o = Obj(n, [], None, "sortdata")
            I.store[o] = {("value",): var(n + ".value"), ("index",): var(n + ".index", "I")}
            objs.append(LV(o, 0, (), "sortdata"))
        r = I.call(f, objs)
        c.require("a triangle comes before another when it is farther", iff(I.tobool(r), cmp(">", var("left.value"), var("right.value"))))
    ctx.sub("comparator", once)


# ------------------------------------------------------------------ events

RASTER = {"rasterize_triangle_interpolated": (3, False), "rasterize_triangle_textured_gouraud": (3, False), "rasterize_edge_interpolated": (2, False), "rasterize_edge_textured_gouraud": (2, False),
          "rasterize_edge_interpolated_error": (2, True), "rasterize_edge_textured_gouraud_error": (2, True)}


def c_event(name):
    back = name.endswith("_B")
    nv, err = RASTER[name[:-2] if back else name]

    def h(I, args, f):
        a = argmap(f, args)
        ev = dict(fn=name)
        for n, v in a.items():
            if n in ("Vxy", "UVvertex", "Vxy_B", "UVvertex_B"):
                ev[n] = [[rd(I, v, 2 * i + d) for d in range(2)] for i in range(nv)]
            elif n in ("Zvertex", "ShadeVertex", "ShadeVertex_B"):
                ev[n] = [rd(I, v, i) for i in range(nv)]
            elif n in ("Avertex", "Avertex_B"):
                ev[n] = [rd(I, v, i) for i in range(nv)]
            elif n == "Texture_size":
                ev[n] = [rd(I, v, i) for i in range(2)]
            else:
                ev[n] = v
        if back:
            # the callee adds unknown contributions to the adjoints of the vertices
            k = len([e for e in I.iter_events if e["fn"].endswith("_B")])
            ev["delta"] = {}
            for n in ("Vxy_B", "UVvertex_B"):
                if n in a:
                    for i in range(nv):
                        for d in range(2):
                            x = var(f"delta{k}:{n}[{i}][{d}]")
                            ev["delta"][n, i, d] = x
                            wr(I, a[n], 2 * i + d, rd(I, a[n], 2 * i + d) + x)
            if "ShadeVertex_B" in a:
                for i in range(nv):
                    x = var(f"delta{k}:S[{i}]")
                    ev["delta"]["ShadeVertex_B", i] = x
                    wr(I, a["ShadeVertex_B"], i, rd(I, a["ShadeVertex_B"], i) + x)
        I.iter_events.append(ev)
    return h


EVENTS = {n + s: c_event(n + s) for n in RASTER for s in ("", "_B")}
SCENE = dict(EVENTS)
SCENE.update({"checkSceneValid": c_check, "signedArea": c_area, "#sort": h_sort})


def raster_calls(I, n, seen=None):
    """Names of the rasterisation functions that a statement calls, directly or not."""
    seen = set() if seen is None else seen
    r = set()
    if n.get("kind") == "CallExpr":
        fid, name = I.callee(n)
        if name in EVENTS:
            r.add(name)
        else:
            f = I.prog.by_id.get(fid)
            if hasattr(f, "body") and f.name not in seen:
                seen.add(f.name)
                for g in I.prog.fns.get(f.name, [f]):
                    if g.body is not None:
                        r |= raster_calls(I, g.body, seen)
    for x in n.get("inner", []):
        if isinstance(x, dict):
            r |= raster_calls(I, x, seen)
    return r


def calls_raster(I, n):
    return bool(raster_calls(I, n))


def distinct(ctx):
    """Lemma: the vertices of a triangle that has an area are pairwise distinct."""
    V = [[app("ij", face(i), d) for d in range(2)] for i in range(3)]
    area = det_of(V)
    for i in range(3):
        j = (i + 1) % 3
        same = list(V)
        same[j] = V[i]
        ctx.report.add("lemma: a triangle with two vertices at the same place has no area", det_of(same).const() == 0, "normal form")
        ctx.assume(bor(cmp("==", area, 0), bnot(cmp("==", face(i), face(j)))))


class SortedOrder(Exception):
    pass


def trace_loop(I, n, c, inc, body, env):
    """Loop over the triangles that draws: one arbitrary iteration, checked against the specification."""
    from .cxx import Break, Continue
    ctx = I.ctx
    lv, vkey, step, v0, last = L.loop_range(I, c, inc, env)
    lo, hi = (v0, last) if step == 1 else (last, v0)
    ctx.require("the loop visits every triangle", band(cmp("==", lo, 0), cmp("==", hi, NT - 1)))
    before = I.snapshot()
    kinds = {"edge" if "_edge_" in x else "triangle" for x in raster_calls(I, body)}
    if len(kinds) != 1:
        raise Unsupported("a loop over the triangles that draws triangles and edges")
    kind, = kinds

    def once(q, probe=False):
        def run(ctx2):
            I.store = {o: dict(v) for o, v in before.items()}
            I.store[lv.obj][vkey] = q
            I.iter_events = []
            I.read_sorted = False
            distinct(ctx2)
            log = dict(reads=[], writes=[], bulk=[], created=set())
            saved, I.logs = I.logs, [log]
            srt = getattr(I, "sorted", None)

            def on_read(o):
                if q is gt and srt is not None and o == srt:
                    raise SortedOrder
            I.on_read = on_read
            try:
                I.stmt(body, dict(env))
            except SortedOrder:
                return "sorted"
            except Continue:
                pass
            except Break:
                raise Unsupported("break in a loop over the triangles")
            finally:
                I.logs, I.on_read = saved, None
            if probe:
                return "ok"
            if log["bulk"]:
                raise Unsupported("bulk operation in a loop over the triangles")
            writes = {(o, k) for o, k in log["writes"] if o.uid not in log["created"] and o != lv.obj}
            I.iteration(I, ctx2, I.iter_events, writes, kind == "edge", step)
            return "ok"
        return run
    # does the loop follow the sorted order?
    rep, ctx.report = ctx.report, Report()
    try:
        r = ctx.sub((n["id"], "probe"), once(gt, True))
    finally:
        ctx.report = rep
    q = gp if "sorted" in r else gt
    I.store = before
    ctx.sub((n["id"], "run"), once(q))
    I.store = {o: dict(v) for o, v in before.items()}
    I.logs and [l["bulk"].append(lv.obj) for l in I.logs]
    I.after_loop(I, kind, "sorted" if q is gp else "index", step)


from .ctx import Report  # noqa: E402


# ------------------------------------------------------------------ specification of an iteration

def offset(ctx):
    return P.of(0) if ctx.branch(boolvar("integer_pixel_centers")) else P.of(Fraction(1, 2))


def tri_facts(ctx):
    """(front, drawn) of the ghost triangle: predicates of the specification."""
    V = [[app("ij", face(i), d) for d in range(2)] for i in range(3)]
    s = 1 if ctx.branch(boolvar("clockwise")) else -1
    area = det_of(V) * s
    infront = band(*[cmp(">=", app("depths", face(i)), 0) for i in range(3)])
    return V, area, infront


def check_common(I, ctx, ev, err, back):
    """Arguments that do not depend on the triangle; returns True when they are right."""
    f = I.fields

    def ptr(p, q):
        return isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj and equal(p.off, q.off) and p.path == q.path
    ok = equal(ev["height"], H) and equal(ev["width"], W) and equal(ev["sizeA"], C) and ptr(ev["z_buffer"], I.job_args["z_buffer"]) and ev["perspective_correct"] == f["perspective_correct"]
    ok = ok and ptr(ev["image"], I.job_args["obs" if err else "image"])
    if err:
        ok = ok and ptr(ev["err_buffer"], I.job_args["err_buffer"])
    if back:
        ok = ok and (ptr(ev["err_buffer_B"], I.job_args["err_buffer_b"]) if err else isinstance(ev["image_B"], Ptr) and I.adjoint_image(I, ev["image_B"], "_edge_" in ev["fn"]))
    if "_edge_" in ev["fn"]:
        ok = ok and equal(ev["sigma"], SIGMA) and ctx.branch(ev["clockwise"]) == ctx.branch(boolvar("clockwise"))
    else:
        ok = ok and ev["strict_edge"] == f["strict_edge"]
    if "Texture" in ev:
        ok = ok and ptr(ev["Texture"], f["texture"]) and equal(ev["Texture_size"][0], TW) and equal(ev["Texture_size"][1], TH)
        if back:
            ok = ok and ptr(ev["Texture_B"], f["texture_b"])
    return ok


def vertex_args(I, ctx, ev, ids, off, back):
    """The vertices of the event are the corners ids of the ghost triangle."""
    f = I.fields
    bad = []
    for j, i in enumerate(ids):
        for d in range(2):
            if not equal(ev["Vxy"][j][d], app("ij", face(i), d) - off):
                bad.append(f"Vxy[{j}][{d}] = {ev['Vxy'][j][d]}")
        if not equal(ev["Zvertex"][j], app("depths", face(i))):
            bad.append(f"Zvertex[{j}] = {ev['Zvertex'][j]}")
        if "Texture" in ev:
            for d in range(2):
                if not equal(ev["UVvertex"][j][d], app("uv", face_uv(i), d)):
                    bad.append(f"UVvertex[{j}][{d}] = {ev['UVvertex'][j][d]}")
            if not equal(ev["ShadeVertex"][j], app("shade", face(i))):
                bad.append(f"ShadeVertex[{j}] = {ev['ShadeVertex'][j]}")
        else:
            for n, fld in (("Avertex", "colors"), ("Avertex_B", "colors_b"))[:2 if back else 1]:
                p = ev[n][j]
                if not (isinstance(p, Ptr) and p.obj == f[fld].obj and equal(p.off, face(i) * C)):
                    bad.append(f"{n}[{j}]")
    return bad


def textured_now(ctx):
    return ctx.branch(bapp("textured", gt))


def iteration(back, err):
    """Specification of one iteration of a loop over the triangles."""
    def it(I, ctx, events, writes, edges, step):
        V, area, infront = tri_facts(ctx)
        off = offset(ctx)
        sfx = "_B" if back else ""
        front = ctx.branch(infront)
        if not edges:
            drawn = front and (ctx.branch(cmp(">", area, 0)) or (not back and ctx.branch(bnot(boolvar("backface_culling"))) and ctx.branch(cmp("<", area, 0))))
            want = [("rasterize_triangle_" + ("textured_gouraud" if textured_now(ctx) else "interpolated") + sfx, (0, 1, 2))] if drawn else []
            ctx.report.add(ctx.name + ": a triangle is drawn when it is in front of the camera and faces it, or when culling is off and it has an area", [e["fn"] for e in events] == [w[0] for w in want],
                           "path exploration", detail=f"{[e['fn'] for e in events]} instead of {[w[0] for w in want]}")
            if [e["fn"] for e in events] != [w[0] for w in want]:
                return
        else:
            drawn = front and ctx.branch(cmp(">", area, 0))
            want = []
            order = (2, 1, 0) if back else (0, 1, 2)
            if drawn:
                for n in order:
                    if ctx.branch(bapp("edgeflags", gt, n)):
                        want.append(("rasterize_edge_" + ("textured_gouraud" if textured_now(ctx) else "interpolated") + ("_error" if err else "") + sfx, NSUB[n]))
            ok = [e["fn"] for e in events] == [w[0] for w in want]
            ctx.report.add(ctx.name + ": the flagged edges of the triangles that are in front of the camera and face it are drawn", ok, "path exploration", detail=f"{[e['fn'] for e in events]} instead of {[w[0] for w in want]}")
            if not ok:
                return
        for e, (_, ids) in zip(events, want):
            n = "an edge" if edges else "a triangle"
            ok = check_common(I, ctx, e, err and edges, back)
            ctx.report.add(ctx.name + f": {n} is drawn in the buffers of the call, with the options of the scene", bool(ok), "path exploration", detail=e["fn"])
            bad = vertex_args(I, ctx, e, ids, off, back)
            ctx.report.add(ctx.name + f": {n} is drawn with the positions, depths and attributes of its vertices", not bad, "normal form", detail="; ".join(map(str, bad))[:500])
            if edges:
                a, b = ids
                o = 3 - a - b
                s = 1 if ctx.branch(boolvar("clockwise")) else -1
                E = e["Vxy"]
                nt = [(E[0][1] - E[1][1]) * s, (E[1][0] - E[0][0]) * s]
                dot = nt[0] * (V[o][0] - off - E[0][0]) + nt[1] * (V[o][1] - off - E[0][1])
                ctx.report.add(ctx.name + ": the ramp of an edge is outside the triangle", equal(dot, -area), "normal form", detail=str(dot)[:300])
        I.writes_ok(I, ctx, events, want, writes)
    return it


def no_writes(I, ctx, events, want, writes):
    ctx.report.add(ctx.name + ": the loops over the triangles only call the drawing functions", not writes, "path exploration", detail=str(sorted(str(w) for w in writes))[:300])


# ------------------------------------------------------------------ renderScene

def v_render_scene(rep, err, bg, sigma):
    def args():
        hold = {}
        f = scene_fields(bg, boolvar("perspective_correct"), boolvar("strict_edge"), hold)

        def sc(I):
            hold["I"] = I
            o, cells = scene_obj(f)
            I.store[o] = dict(cells)
            I.fields = f
            return LV(o, 0, (), "Scene")
        return dict(scene=sc, image=Ptr(image("image")), z_buffer=Ptr(plane("z_buffer")), sigma=SIGMA if sigma else P.of(0), antialiaseError=err,
                    obs=Ptr(Obj("obs", [H, W, C], lambda y, x, k: app("obs", y, x, k), ghosts=[gy, gx, gk], writable=False)) if err else NULL,
                    err_buffer=Ptr(plane("err_buffer")) if err else NULL)

    def pre(ctx):
        scene_pre(ctx)
        ctx.assume(cmp(">", SIGMA, 0))

    def after_loop(I, kind, order, step):
        ctx = I.ctx
        a = I.job_args
        if kind == "triangle":
            bgv = app("background_image", gy, gx, gk) if bg == "image" else app("background_color", gk)
            ctx.require_equal("the triangles are drawn over the background", px(I, a["image"], gk), bgv)
            ctx.require_equal("the triangles are drawn over an infinite depth", px(I, a["z_buffer"]), var("INFINITY"))
            ctx.report.add(ctx.name + ": the triangles are drawn in the order of the faces, before the edges", order == "index" and step == 1 and I.trace.count("triangles") == 0, "path exploration")
            I.trace.append("triangles")
            for o, n in ((a["image"].obj, "image'"), (a["z_buffer"].obj, "z_buffer'")):
                I.store[o] = {}
                o.init = (lambda *k, n=n: app(n, *k))
        else:
            ctx.report.add(ctx.name + ": the edges are drawn from the farthest triangle to the nearest, after the triangles", order == "sorted" and step == 1 and "sort" in I.trace and I.trace.count("edges") == 0, "path exploration", detail=f"{order} {step} {I.trace}")
            I.trace.append("edges")
            if err:
                check_err(I)
            ctx.require_equal("the edges use the depths of the triangles", px(I, a["z_buffer"]), app("z_buffer'", gy, gx))
            o, n = (a["err_buffer"].obj, "err''") if err else (a["image"].obj, "image''")
            if not err:
                ctx.require_equal("the edges are blended over the triangles", px(I, a["image"], gk), app("image'", gy, gx, gk))
            I.store[o] = {}
            o.init = (lambda *k, n=n: app(n, *k))

    def check_err(I):
        d = app("image'", gy, gx, gk) - app("obs", gy, gx, gk)
        I.ctx.require_equal("the error is the squared residual of the image without antialiasing", z0(px(I, I.job_args["err_buffer"])), eps("g_k") * d * d)

    def post(I, a, ctx):
        want = ["check", "sort", "triangles"] + (["edges"] if sigma else [])
        got = [t for t in I.trace if t != "sort" or sigma]
        want = [t for t in want if t != "sort" or sigma]
        ctx.report.add(ctx.name + ": the scene is checked first", I.trace[:1] == ["check"], "path exploration")
        ctx.report.add(ctx.name + ": the triangles then the edges are drawn", [t for t in got if t != "sort"] == [t for t in want if t != "sort"], "path exploration", detail=str(I.trace))
        img = px(I, a["image"], gk)
        ctx.require_equal("the image is the result of the drawing", img, app("image''" if sigma and not err else "image'", gy, gx, gk))
        ctx.require_equal("the depth buffer is that of the triangles", px(I, a["z_buffer"]), app("z_buffer'", gy, gx))
        if err:
            if sigma:
                ctx.require_equal("the error is the result of the drawing of the edges", px(I, a["err_buffer"]), app("err''", gy, gx))
            else:
                check_err(I)

    j = SJob(rep, "renderScene", f"{'error' if err else 'image'} mode, background {bg}, sigma {'> 0' if sigma else '= 0'}", SCENE)
    oi = j.interp

    def interp():
        I = oi()
        I.iteration = iteration(False, err)
        I.after_loop = after_loop
        I.writes_ok = no_writes
        return I
    j.interp = interp
    j.run(args, post, pre)


# ------------------------------------------------------------------ renderScene_B

def adjoint_writes(I, ctx, events, want, writes):
    """The adjoints of the vertices of the drawn primitives receive the contributions of the drawing, nothing else changes."""
    f = I.fields
    tgt = {f["ij_b"].obj: "ij_b", f["uv_b"].obj: "uv_b", f["shade_b"].obj: "shade_b"}
    ids = [face(i) for i in range(3)]
    uids = [face_uv(i) for i in range(3)]
    bad = []
    for o, k in writes:
        if o not in tgt or not any(equal(k[0], x) for x in (uids if tgt[o] == "uv_b" else ids)):
            bad.append(f"{o.name}{list(map(str, k))}")
    ctx.report.add(ctx.name + ": only the adjoints of the vertices of the primitive are modified", not bad, "path exploration", detail="; ".join(bad)[:300])
    if bad:
        return
    if not events:
        ctx.report.add(ctx.name + ": only the adjoints of the vertices of the primitive are modified", not writes, "path exploration")
        return

    def total(o, dims, own, arg):
        first = [next(r for r in range(i + 1) if r == i or ctx.branch(cmp("==", own[r], own[i]))) for i in range(3)]
        for d in dims:
            alias = {next(iter(I.initial(o, (own[i],) + tuple(map(P.of, d))).atoms())): I.initial(o, (own[first[i]],) + tuple(map(P.of, d))) for i in range(3)}
            for i in range(3):
                key = (own[i],) + tuple(map(P.of, d))
                x0 = I.initial(o, key)
                add = P.of(0)
                for e, (_, sub) in zip(events, want):
                    for j, s in enumerate(sub):
                        if (arg, j) + d in e["delta"] and first[s] == first[i]:
                            add = add + e["delta"][(arg, j) + d]
                ctx.require_equal(f"the {o.name} of a vertex receives the contributions of the primitives drawn with it", (I.read(o, key) - x0).subst(alias.get), add)
    total(f["ij_b"].obj, [(0,), (1,)], ids, "Vxy_B")
    if any("Texture" in e for e in events):
        total(f["shade_b"].obj, [()], ids, "ShadeVertex_B")
        total(f["uv_b"].obj, [(0,), (1,)], uids, "UVvertex_B")


def v_render_scene_B(rep, err, sigma, clockwise=None, texturing=None):
    """The cases clockwise / textured may be treated separately."""
    def args():
        hold = {}
        f = scene_fields("color", boolvar("perspective_correct"), boolvar("strict_edge"), hold)

        def sc(I):
            hold["I"] = I
            o, cells = scene_obj(f)
            I.store[o] = dict(cells)
            I.fields = f
            return LV(o, 0, (), "Scene")
        ro = dict(writable=False)
        return dict(scene=sc, image=Ptr(image("image")), z_buffer=Ptr(Obj("z_buffer", [H, W], lambda y, x: app("z_buffer", y, x), ghosts=[gy, gx], **ro)),
                    image_b=NULL if err else Ptr(image("image_b")), sigma=SIGMA if sigma else P.of(0), antialiaseError=err,
                    obs=Ptr(Obj("obs", [H, W, C], lambda y, x, k: app("obs", y, x, k), ghosts=[gy, gx, gk], **ro)) if err else NULL,
                    err_buffer=Ptr(plane("err_buffer")) if err else NULL, err_buffer_b=Ptr(plane("err_buffer_b")) if err else NULL)

    def pre(ctx):
        scene_pre(ctx)
        ctx.assume(cmp(">", SIGMA, 0))

        if clockwise is not None:
            ctx.assume(boolvar("clockwise") if clockwise else bnot(boolvar("clockwise")))
        if texturing is not None:
            ctx.assume(bapp("textured", gt) if texturing else bnot(bapp("textured", gt)))

    def adjoint_image(I, p, edges):
        if edges or not err:
            q = I.job_args["image_b"]
            return p.obj == q.obj and p.off.const() == 0
        s = "''" if sigma else ""
        e = app("err_buffer_b" + s, gy, gx)
        if p.off.const() != 0 or p.obj.name in ("image", "obs"):
            return False
        return equal(px(I, p, gk), (app("image", gy, gx, gk) - app("obs", gy, gx, gk)) * e * 2)

    def after_loop(I, kind, order, step):
        ctx = I.ctx
        a = I.job_args
        I.trace.append("edges" if kind == "edge" else "triangles")
        if kind == "edge":
            ctx.report.add(ctx.name + ": the edges are differentiated in the reverse of the drawing order, before the triangles",
                           order == "sorted" and step == -1 and "sort" in I.trace and "triangles" not in I.trace, "path exploration", detail=f"{order} {step} {I.trace}")
            for n in ("err_buffer", "err_buffer_b") if err else ("image_b",):
                o = a[n].obj
                for y in I.store.get(o, {}).values():
                    if not isinstance(y, P) or not str(y).startswith(n):
                        ctx.report.add(ctx.name + ": the adjoints of the outputs are those of the caller", False, "path exploration", detail=str(y)[:200])
                I.store[o] = {}
                o.init = (lambda *k, n=n: app(n + "''", *k))
        else:
            name = ctx.name + ": the triangles are differentiated in the order of the faces, so that on ties of depth the gradient goes to the one that is displayed"
            ctx.report.add(ctx.name + ": the triangles are differentiated one after the other", order == "index", "path exploration", detail=order)
            if step == -1:
                ctx.report.known.setdefault("KF3", set()).add(name)
            else:
                ctx.report.add(name, order == "index", "path exploration")
            if not err:
                ctx.require_equal("the adjoint of the image given to the triangles is what the edges leave", px(I, a["image_b"], gk), app("image_b''" if sigma else "image_b", gy, gx, gk))
        for n in ("ij_b", "uv_b", "shade_b", "colors_b", "texture_b"):
            o = I.fields[n].obj
            I.store[o] = {}
            o.init = (lambda *k, n=n + str(len(I.trace)): app(n, *k))

    def post(I, a, ctx):
        ctx.require("gradients with culling disabled are refused", boolvar("backface_culling"))
        ctx.report.add(ctx.name + ": the scene and its derivative arrays are checked first", I.trace[:1] == ["check"] and I.checked is True, "path exploration")
        got = [t for t in I.trace if t in ("edges", "triangles")]
        ctx.report.add(ctx.name + ": the edges then the triangles are differentiated", got == (["edges"] if sigma else []) + ["triangles"], "path exploration", detail=str(I.trace))
        ctx.require_equal("the image is left as it was", px(I, a["image"], gk), app("image", gy, gx, gk))

    def thrown(I, a, ctx):
        ok = ctx.valid(bnot(boolvar("backface_culling")))
        ctx.report.add(ctx.name + ": gradients are refused only when culling is disabled", ok, "z3")

    j = SJob(rep, "renderScene_B", f"{'error' if err else 'image'} mode, sigma {'> 0' if sigma else '= 0'}", SCENE)
    oi = j.interp

    def interp():
        I = oi()
        I.iteration = iteration(True, err)
        I.after_loop = after_loop
        I.writes_ok = adjoint_writes
        I.adjoint_image = adjoint_image
        I.initial = lambda o, k: o.init(*k)
        return I
    j.interp = interp
    j.run(args, post, pre, thrown)
