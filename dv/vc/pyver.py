"""Obligations about the Python functions of /repo, executed on symbolic arrays."""
import itertools
import traceback
from . import nps, term
from .ctx import Ctx, Unsupported, Infeasible
from .nps import A, B, Cat, Prod, Sp, Quant, asA, symbol, indices, num, cond, axioms_for, sum_dim, new, scalar, valid
from .pyload import Env
from .sums import Zero, ddx, wrt, delta, ind, Base
from .term import P, app, var, cmp, band, bor, bnot, sqrt


class Py:
    def __init__(self, rep, name):
        self.rep, self.name = rep, name

    def run(self, fn, limit=400, refused=None):
        """fn(self) on every path; obligations are recorded under the name of the run.
        refused: text of the documented exception that ends a path without failing."""
        self.refused = refused
        c = self.c = Ctx(self.rep, self.name)
        nps.CTX[0] = c
        c.facts = []
        paths = [0]

        def one(c):
            c.facts = []
            nps.AXIOMS.clear()
            nps.NEED.clear()
            nps.DETACH[0] = lambda a: a
            nps._uniq_n[0] = 0
            self.env = Env()
            try:
                fn(self)
            except Infeasible:
                raise
            except Unsupported as e:
                self.rep.fail(self.name + ": within the reach of the verifier", f"{e} " + traceback.format_exc()[-600:])
            except Exception as e:
                self.rep.fail(self.name + ": no exception", f"{type(e).__name__}: {e} " + traceback.format_exc()[-600:])
            except BaseException as e:  # noqa: B902
                if type(e) is not BaseException:
                    raise
                if self.refused and self.refused in str(e):
                    raise Infeasible
                self.rep.fail(self.name + ": no exception", str(e))
            paths[0] += 1
        try:
            c.explore(one, limit)
        except Unsupported as e:
            self.rep.fail(self.name + ": within the reach of the verifier", str(e))
        if not paths[0]:
            self.rep.fail(self.name + ": some execution", "no feasible path")

    def use(self, path, *fns):
        for f in fns:
            self.rep.functions[f"{path}:{f}"] = "under contract"

    def get(self, m):
        return self.env.get(m)

    def zero(self, name, d, show=None):
        import time
        t0 = time.time()
        try:
            ok = Zero(self.c, axioms_for).zero(d)
        except NotImplementedError as e:
            ok, show = False, f"{e}"
        self.rep.add(self.name + ": " + name, ok, "normal form", time.time() - t0, None if ok else (show or f"not zero: {str(d)[:500]}"))
        return ok

    def eq(self, name, got, want):
        """Two arrays (or scalars) are equal for every index."""
        if isinstance(got, Sp):
            got = got.todense()
        if isinstance(want, Sp):
            want = want.todense()
        got, want = asA(got), asA(want)
        if len(got.dims) != len(want.dims) or not all(nps.same_dim(a, b) or (isinstance(a, nps.Dim) and isinstance(b, nps.Dim) and valid(cmp("==", nps.size(a), nps.size(b)))) for a, b in zip(got.dims, want.dims)):
            self.rep.fail(self.name + ": " + name, f"shape {got.dims} instead of {want.dims}")
            return False
        rg, rw = got.reader(), want.reader()
        ok = True
        dims = [d if not isinstance(d, nps.Opq) else w for d, w in zip(got.dims, want.dims)]
        for t in itertools.product(*[indices(d) for d in dims]):
            n = len(nps.NEED)
            a, b = rg(t), rw(t)
            if isinstance(b, (tuple, bool)) or isinstance(a, (tuple, bool)):
                a, b = ind(cond(a)), ind(cond(b))
            ok = self.zero(name, num(a) - num(b), None) and ok
            del nps.NEED[n:]
            if not ok:
                break
        return ok

    def true(self, name, c, detail=""):
        """A condition (or Python truth) holds."""
        import time
        t0 = time.time()
        if isinstance(c, (Quant, nps.QAnd, nps.SB, A)):
            ok = valid(c.c) if isinstance(c, nps.SB) else (valid(cond(c.item())) if isinstance(c, A) else c.holds_generic())
        else:
            ok = valid(c) if isinstance(c, tuple) else bool(c)
        self.rep.add(self.name + ": " + name, ok, "z3" if not isinstance(c, bool) else "execution", time.time() - t0, None if ok else (detail or f"not implied: {str(c)[:300]}"))
        return ok

    def dot(self, a, b):
        """Sum of the products of two arrays of the same shape."""
        r = nps.np_sum(asA(a) * asA(b))
        return num(r.item())

    def adjoint(self, name, loss, arr, grad, base=None, deps=None):
        """grad (an array like arr) is the derivative of the scalar term loss with respect to the symbol array arr
        (plus what was there before).  deps: arrays that depend on arr by a contract,
        name -> f(indices of the element, indices of the variable) = partial derivative."""
        grad = asA(grad)
        if len(grad.dims) != len(arr.dims) or not all(nps.same_dim(x, y) or x == y for x, y in zip(grad.dims, arr.dims)):
            self.rep.fail(self.name + ": " + name, f"shape {grad.dims} instead of {arr.dims}")
            return False
        rg = grad.reader()
        rb = asA(base).reader() if base is not None else None
        ra = arr.reader()
        for t in itertools.product(*[indices(d) for d in arr.dims]):
            x = ra(t)
            (k, _), = x.m.items()
            at = k[0][0]
            base_rule = wrt(at.name, at.args)
            if deps:
                def rule(a, base_rule=base_rule, at=at):
                    if a.kind == "fn" and a.name in deps:
                        return deps[a.name](a.args, at.args)
                    return base_rule(a)
            else:
                rule = base_rule
            want = ddx(loss, rule)
            d = num(rg(t)) - want
            if rb is not None:
                d = d - num(rb(t))
            if not self.zero(name, d):
                return False
        return True

    def unchanged(self, name, **arrs):
        for k, a in arrs.items():
            self.true(f"{name}: {k} is not modified", a.buf.version == 0)

    def raises(self, f, *a, **k):
        """The exception raised on this path, or None."""
        try:
            f(*a, **k)
        except (Unsupported, Infeasible):
            raise
        except BaseException as e:  # noqa: B902
            if type(e).__name__ == "Late":
                raise
            return e
        return None
