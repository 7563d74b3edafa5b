"""C24: the sum over any number of frames.

The loops of the multiple frame fitter over the frames are treated by a ghost iteration.  Extraction
(mechanical, on every run) rewrites `for x in E: B`, when E is a range or a list of symbolic length, into
two passes over B: the first one from the state on entry, for the first frame; the second one
from an arbitrary state that a previous frame may have left (what the first pass modified is
replaced by new symbols), for an arbitrary frame f.  A variable, or attribute, whose value after the
second pass is its value before plus a term without these symbols is an accumulator: after the loop
it is its value on entry plus the sum of the term over the frames (and the first pass must add the
same term).  A value without these symbols is the one of the last frame.  A list that gets one item per
frame becomes a list of symbolic length.  Anything else is refused.

render and render_backward are replaced by their contracts, proved in pyfit.v_frame for any frame."""
import ast
from .pyfit import *
from . import pyfit
from .pyfit_torch import UNIQUE
from .sums import LETS, rename, expand, fvp, atom_of

N = pyfit.N


class Symbolic:
    """A sequence of symbolic length."""

    def __init__(self, dim, item):
        self.dim, self.item = dim, item

    @property
    def dims(self):
        return (self.dim,)

    def as_array(self):
        i0 = self.item(var("#?", "I"))
        return new((self.dim,) + asA(i0).dims, lambda t: num(asA(self.item(t[0])).at(*t[1:])) if len(t) > 1 else num(asA(self.item(t[0])).item()))

    def __getitem__(self, k):
        k = num(asA(k).item())
        return self.item(k)

    def __iter__(self):
        raise Unsupported("iteration over a list of symbolic length")

    def __len__(self):
        raise Unsupported("length of a list of symbolic length")


class Range(Symbolic):
    def __init__(self, dim):
        super().__init__(dim, lambda k: scalar(k, "i"))


class Zip(Symbolic):
    pass


class Grown(list):
    """A list that has an unknown number of items, then those appended."""

    def _no(self, *a, **k):
        raise Unsupported("use of a list of unknown length")

    def extend(self, items):
        if isinstance(items, Grown):
            raise Unsupported("use of a list of unknown length")
        for x in items:
            self.append(x)

    def __iadd__(self, items):
        self.extend(items)
        return self

    __iter__ = __getitem__ = __setitem__ = __add__ = insert = pop = remove = sort = reverse = __contains__ = __len__ = __bool__ = _no


class Rewrite(ast.NodeTransformer):
    def __init__(self, name="dv_"):
        self.names, self.n, self.dv = None, 0, name

    def visit_FunctionDef(self, n):
        old = self.names
        self.names = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in n.args.args})
        self.generic_visit(n)
        self.names = old
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if self.names is None or n.orelse or any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in n.body for x in ast.walk(b)):
            return n
        k = self.n
        self.n += 1
        bind = "".join(f"if {v!r} in dv_st{k}: {v} = dv_st{k}[{v!r}]\n" for v in self.names)
        pre = ast.parse(f"dv_it{k} = None").body
        pre[0].value = n.iter
        before = ast.parse(f"dv_st{k} = {self.dv}.enter(dv_it{k}, dv_p{k}, locals())\n{bind}dv_x{k} = {self.dv}.element(dv_it{k})").body
        asg = ast.Assign(targets=[n.target], value=ast.Name(f"dv_x{k}", ast.Load()))
        after = ast.parse(f"dv_st{k} = {self.dv}.leave(dv_p{k}, locals())\n{bind}").body
        import copy
        body = [copy.deepcopy(b) for b in n.body]
        twice = ast.parse(f"for dv_p{k} in (1, 2): pass").body[0]
        twice.body = before + [asg] + body + after
        test = ast.parse(f"if {self.dv}.symbolic(dv_it{k}): pass\nelse: pass").body[0]
        test.body = [twice]
        test.orelse = [ast.For(target=n.target, iter=ast.Name(f"dv_it{k}", ast.Load()), body=n.body, orelse=[])]
        return [ast.copy_location(x, n) for x in pre + [test]]


def deep(v):
    """Without abbreviations (they could hide the frame), except those that have the frame as an argument."""
    while True:
        e = expand(v, "adj")
        if e is None:
            return v
        v = e


class Frames:
    """The rule of the loop, for one path."""

    def __init__(self, p):
        self.p, self.k, self.stack = p, 0, []

    @staticmethod
    def symbolic(it):
        return isinstance(it, Symbolic)

    def locations(self, loc):
        out = {("local", n): v for n, v in loc.items() if not n.startswith("dv_")}
        me = loc.get("self")
        if me is not None:
            out.update({("self", n): v for n, v in me.__dict__.items()})
        return out

    def element(self, it):
        return it.item(self.f)

    @staticmethod
    def number(v):
        return isinstance(v, A) or isinstance(v, (int, float)) and not isinstance(v, bool)

    def put(self, loc, st, key, v):
        if key[0] == "local":
            st[key[1]] = v
        else:
            setattr(loc["self"], key[1], v)

    def enter(self, it, pas, loc):
        self.k += 1
        f = self.f = var(f"frame{self.k}", "I")
        self.p.c.assume(band(cmp("==", f, 0) if pas == 1 else cmp("<", 0, f), cmp("<", f, nps.size(it.dim))))   # (one frame alone: pyfit.v_multi)
        if pas == 1:
            self.entry = dict(it=it, modified=[], lists={})
        e = self.entry
        st = {}
        now = self.locations(loc)
        if pas == 1:
            e["v0"] = {k: (v, freeze(asA(v)) if self.number(v) else None, v.buf.version if isinstance(v, A) else None) for k, v in now.items()}
            e["len0"] = {k: len(v) for k, v in now.items() if type(v) is list}
            return st
        # an arbitrary earlier frame has left its values
        e["h"] = {}
        for k, (dims, dt) in e["shapes"].items():
            h = symbol(f"earlier{self.k}_{k[1]}", *dims, dtype=dt)
            if not dims:
                h = scalar(app(f"earlier{self.k}_{k[1]}"))
            e["h"][k] = freeze(h)
            self.put(loc, st, k, h)
        for k in e["lists"]:
            g = Grown()
            self.put(loc, st, k, g)
        now = {**self.locations(loc), **{("local", n): v for n, v in st.items()}}
        e["v1"] = {k: (v, v.buf.version if isinstance(v, A) else None) for k, v in now.items()}
        return st

    def leave(self, pas, loc):
        e, p = self.entry, self.p
        st = {}
        now = self.locations(loc)
        if pas == 1:
            e["shapes"], e["first"] = {}, {}
            for k, v in now.items():
                if k[1] in ("self",):
                    continue
                old = e["v0"].get(k)
                if old is not None and old[0] is v and (not isinstance(v, A) or v.buf.version == old[2]):
                    if type(v) is list and len(v) != e["len0"][k]:
                        if len(v) != e["len0"][k] + 1 or e["len0"][k]:
                            raise Unsupported("a list gets other than one item per frame")
                        e["lists"][k] = None
                        e["first"][k] = v[0]
                    continue
                if not self.number(v):
                    if isinstance(v, (Symbolic, dict)) or v is None:
                        continue
                    raise Unsupported(f"{k[1]} is modified by a frame: {type(v).__name__}")
                a = asA(v)
                # an integer that changes is the index of the frame, or a counter
                e["shapes"][k] = (a.dims, a.buf.dtype if a.dims else "f")
                e["first"][k] = freeze(a)
            e["f1"] = self.f
            return st
        f = self.f
        F_ = atom_of(f)
        d = e["it"].dim
        for k, v in now.items():
            if k in e["shapes"] or k in e["lists"] or k[1] == "self":
                continue
            old = e["v1"].get(k)
            if old is None or old[0] is not v or isinstance(v, A) and v.buf.version != old[1]:
                if isinstance(v, (Symbolic, dict)) or v is None:
                    continue
                raise Unsupported(f"{k[1]} is modified by the second frame only")
            if type(v) is list and len(v) != e["len0"].get(k, len(v)):
                raise Unsupported(f"{k[1]} is modified by the second frame only")
        mine = tuple(f"earlier{self.k}_" for _ in (0,))

        def clean(x):
            return not any(a.kind in ("fn", "var") and a.name.startswith(mine) for a in x.all_atoms())

        def at(val, x):
            """The value for another frame."""
            return rename(val, {F_: P.of(x) if not isinstance(x, P) else x})

        for k, (dims, dt) in e["shapes"].items():
            v = asA(now[k])
            if len(v.dims) != len(dims):
                raise Unsupported(f"the shape of {k[1]} changes")
            g = freeze(v)
            canon = [list(range(n)) if isinstance(n, int) else [var(f"@{i}:{n.base.name}", "I")] for i, n in enumerate(dims)]
            h = e["h"][k]
            scratch, terms = True, {}
            for t in itertools.product(*canon):
                x = deep(num(g.at(*t) if t else g.item()))
                terms[t] = x
                scratch = scratch and clean(x)
            if not scratch:
                for t in terms:
                    terms[t] = terms[t] - num(h.at(*t) if t else h.item())
                    if not clean(terms[t]):
                        raise Unsupported(f"{k[1]} depends on the previous frames other than by a sum")

            def term_(t, x, terms=terms, canon=canon, dims=dims):
                c = tuple(i if isinstance(n, int) else canon[q][0] for q, (i, n) in enumerate(zip(t, dims)))
                m = {atom_of(canon[q][0]): P.of(t[q]) if not isinstance(t[q], P) else t[q] for q, n in enumerate(dims) if not isinstance(n, int)}
                m[F_] = x
                return rename(terms[c], m)
            first = e["first"][k]
            if scratch:
                last = nps.size(d) - 1
                p.eq(f"the first frame gives {k[1]} as the others", first, new(dims, lambda t: term_(t, e["f1"])))
                r = new(dims, lambda t, last=last, term_=term_: term_(t, last), dt)
            else:
                v0 = e["v0"].get(k, (None, None))[1]
                if v0 is None:
                    v0 = nps.np_zeros(dims) if dims else scalar(P.of(0))   # checked below: the first frame gives its own term
                # (a scalar that is added to an array of zeros keeps its shape)
                base = v0 if len(v0.dims) == len(dims) else v0 + nps.np_zeros(dims)
                p.eq(f"the first frame adds to {k[1]} as the others", first, new(dims, lambda t, term_=term_, base=base: num(base.at(*t) if t else base.item()) + term_(t, e["f1"])))
                r = freeze(new(dims, lambda t, term_=term_, base=base: num(base.at(*t) if t else base.item()) + nps.sum_dim(d, lambda x: term_(t, x)), dt))
            self.put(loc, st, k, r)
        for k in e["lists"]:
            l = now[k]
            if type(l) is not Grown or list.__len__(l) != 1:
                raise Unsupported("a list gets other than one item per frame")
            a = list.__getitem__(l, 0)
            b = e["first"][k]
            if not self.number(a):
                raise Unsupported("a list of something else than arrays")
            g = freeze(asA(a))
            terms = {}

            def item(x, g=g):
                rd = g.reader()
                return new(g.dims, lambda t: at(deep(num(rd(t))), x))
            rd = g.reader()
            for t in itertools.product(*[indices(n) for n in g.dims]):
                if not clean(deep(num(rd(t)))):
                    raise Unsupported(f"an item of {k[1]} depends on the previous frames")
            p.eq(f"the first frame gives the item of {k[1]} as the others", asA(b), item(e["f1"]))
            self.put(loc, st, k, Symbolic(d, item))
        return st


def builtins():
    def length(x):
        return x.dim if isinstance(x, Symbolic) else nps.slen(x)

    def rng(*a):
        if len(a) == 1 and isinstance(a[0], nps.Dim):
            return Range(a[0])
        return nps.srange(*a)

    def enum(x, *a):
        if isinstance(x, Symbolic) and not a:
            return Zip(x.dim, lambda k: (scalar(k, "i"), x.item(k)))
        return enumerate(x, *a)

    def zp(*a):
        if a and all(isinstance(x, Symbolic) for x in a):
            return Zip(a[0].dim, lambda k: tuple(x.item(k) for x in a))
        return zip(*a)
    def total_(x, *a):
        if isinstance(x, Symbolic):
            r = nps.np_sum(x.as_array(), 0)
            return r + a[0] if a else r
        return nps.ssum(x, *a)
    return dict(len=length, range=rng, enumerate=enum, zip=zp, sum=total_)


def shared(f):
    done = {}

    def g(args):
        if args not in done:
            done[args] = f(args)
        return done[args]
    return g


def image_of(p, f, *t):
    return app("img", f, *t)


def frame_rule(p, s, x, base):
    """Derivative of the pixels of the images by the contract of render (v_frame)."""
    def rule(a):
        if a.kind == "fn" and a.name == "img":
            f, t = a.args[0], a.args
            R, tr = rotation(new((4,), lambda i: num(s["q"].at(f, i[0])))), new((3,), lambda i: num(s["t"].at(f, i[0])))
            v = rows(R, x, tr)
            r = nps.sum_dim(V, lambda n: sum((app("dv", *t, n, d) * ddx(num(v.at(n, d)), base) for d in range(3)), P.of(0)))
            r = r + nps.sum_dim(V, lambda n: sum((app("dcol", *t, n, d) * ddx(num(s["mc"].at(d)), base) for d in range(3)), P.of(0)))
            r = r + sum((app("dld", *t, d) * ddx(num(s["ld"].at(d)), base) for d in range(3)), P.of(0))
            return r + app("dla", *t) * ddx(num(asA(s["la"]).item()), base)
        return base(a)
    return rule


def v_sum(rep, lights=True, color=True):
    p = Py(rep, f"MeshRGBFitterWithPoseMultiFrame, any number of frames, lights {'updated' if lights else 'fixed'}, colour {'updated' if color else 'fixed'}")

    def run(p):
        dv = Frames(p)
        m = pyfit.setup(p, rewrite=Rewrite().visit, dv_=dv, **builtins())
        x = []

        class Fitter(m.MeshRGBFitterWithPoseMultiFrame):
            """render and render_backward by contract."""

            def render(self, idframe=None):
                p.true("a frame is rendered", idframe is not None)
                f = num(asA(idframe).item())
                p.true("the frame exists", valid(band(cmp("<=", 0, f), cmp("<", f, N.base.size))))
                p.eq("rendered vertices", self.vertices, x[0])
                for k, a in (("q", self.transform_quaternion), ("t", self.transform_translation), ("mc", self.mesh_color), ("ld", self.light_directional), ("la", asA(self.light_ambient))):
                    p.eq("rendered with the " + NAMES[k], a, asA(s[k]))
                self.pending_ = scalar(f, "i")
                return new((H, W, 3), lambda t: image_of(p, f, *t))

            def render_backward(self, image_b):
                f = num(self.pending_.item())
                b = freeze(asA(image_b))
                for n, e in zip(b.dims, (H, W, 3)):
                    if not nps.same_dim(n, e):
                        raise ValueError("shape of the gradient of the image")
                rb = b.reader()
                cur = symbol("cur", V, 3)
                for k in GRADS:
                    arr = cur if k == "x" else asA(s[k])

                    def part(t, k=k, arr=arr):
                        t = tuple(int(i.const()) if isinstance(i, P) and i.const() is not None else i for i in t)
                        (key, _), = num(arr.at(*t) if t else arr.item()).m.items()
                        at = key[0][0]
                        rule = frame_rule(p, s, cur, wrt(at.name, at.args if at.kind == "fn" else ()))
                        d = nps.sum_dim(H, lambda i: nps.sum_dim(W, lambda j: nps.sum_dim(3, lambda c: num(rb((i, j, c))) * ddx(image_of(p, f, i, j, c), rule))))
                        return put_back(d)

                    def define(args, part=part):
                        return rename(part(args[1:]), {atom_of(f): args[0]})

                    def put_back(d):
                        return deep(d.subst(lambda a: num(x[0].at(*a.args)) if a.kind == "fn" and a.name == "cur" else None))
                    name = f"adj{next(UNIQUE)}_{k}"
                    LETS[name] = (50, shared(define))
                    setattr(self, GRADS[k], asA(getattr(self, GRADS[k])) + new(arr.dims, lambda t, name=name: app(name, f, *t)))
        m.MeshRGBFitterWithPoseMultiFrame, keep = Fitter, m.MeshRGBFitterWithPoseMultiFrame
        o, a = fitter(p, m, "multi", lights, color)
        bg = symbol("bg", 3)
        o.set_background_color(bg)
        T = symbol("T", N, H, W, 3)
        o.set_images(Symbolic(N, lambda k: new((H, W, 3), lambda t: num(T.at(k, *t)))), focal=scalar(var("focal")))
        s = anystate(p, o, "multi")
        x.append(centre(s["x"]))
        it = var("iter", "I")
        p.c.assume(cmp("<=", 0, it))
        o.iter = scalar(it, "i")
        E, images, diffs = o.step()
        g0 = var("anyframe", "I")
        p.c.assume(band(cmp("<=", 0, g0), cmp("<", g0, N.base.size)))
        for what, l in (("image", images), ("residual", diffs)):
            p.true(f"one {what} per frame", isinstance(l, Symbolic) and nps.same_dim(l.dim, N))
        img = lambda f: new((H, W, 3), lambda t: image_of(p, f, *t))
        res = lambda f: new((H, W, 3), lambda t: image_of(p, f, *t) - num(T.at(f, *t)))
        sq = lambda f: new((H, W), lambda t: sum((num(res(f).at(*t, c)) ** 2 for c in range(3)), P.of(0)))
        p.eq("the image of a frame is its rendering", images.item(g0), img(g0))
        p.eq("squared residual of a frame", diffs.item(g0), sq(g0))
        n = nps.size(N)
        L = nps.sum_dim(N, lambda f: nps.sum_dim(H, lambda i: nps.sum_dim(W, lambda j: num(sq(f).at(i, j))))) * var("cdata") * P.of(n).inv()
        p.true("one evaluation of the rigidity", len(p.evals) == 1)
        p.eq("rigidity of the current vertices", p.evals[0], x[0])
        p.eq("energy", asA(E), scalar(L + var("Erigid0")))
        g = {k: asA(getattr(o, GRADS[k])) for k in GRADS}
        for k, name in NAMES.items():
            got = centre(g[k]) if k == "x" and not valid(cmp("<", it, 500)) else g[k]
            arr = asA(s[k])
            for t in itertools.product(*[indices(d) for d in arr.dims]):
                (key, _), = num(arr.at(*t) if t else arr.item()).m.items()
                at = key[0][0]
                want = ddx(L, frame_rule(p, s, x[0], wrt(at.name, at.args if at.kind == "fn" else ())))
                if not p.zero("gradient of the " + name, num(got.at(*t) if t else got.item()) - want):
                    break
        named_ = {k: short(g[k]) for k in g}
        updates(p, o, s, "multi", dict(g, x=g["x"] + symbol("Grigid0", V, 3)), x[0], lights, color)
        p.true("the images are not modified", T.buf.version == 0)
        for k, v in a.items():
            p.true(f"{k} is not modified", v.buf.version == 0)
    p.run(run)
    p.use(PATH, *["MeshRGBFitterWithPoseMultiFrame." + f for f in ("set_images", "clear_gradients", "energy_data", "step")])
