"""Path exploration and discharge of obligations.

explore(run) executes `run(ctx)` once per feasible path; ctx.branch(cond) asks for
the value of a condition and forks when both are possible.  Every obligation is
an implication from the path condition, discharged by exact normal forms, by
interval of cases, or by z3.
"""
import time
import z3
from .term import P, Atom, atom, var, cmp, band, bor, bnot, is_zero, equal, bool_polys

z3.set_param("smt.random_seed", 7)


class Unsupported(Exception):
    """The source left the subset the generator understands."""


class Infeasible(Exception):
    pass


class Z3:
    def __init__(self):
        self.cache = {}
        self.bcache = {}
        self.consts = {}

    def atom(self, a, side):
        e = self.consts.get(a)
        if e is None:
            n = f"{a.kind}:{a.name}:{a.id}"
            e = z3.Int(n) if a.sort == "I" else (z3.Bool(n) if a.sort == "B" else z3.Real(n))
            self.consts[a] = e
        if a.kind in ("inv", "sqrt", "floor"):
            side.append(a)
        return e

    def poly(self, p, side):
        """z3 expression; Int sorted when p is an integer polynomial."""
        isint = p.is_int()
        terms = []
        for k, v in p.m.items():
            fs = []
            if isinstance(v, int):
                c = z3.IntVal(v) if isint else z3.RealVal(v)
            else:
                c = z3.RealVal(str(v))
            for a, e in k:
                x = self.atom(a, side)
                if not isint and a.sort == "I":
                    x = z3.ToReal(x)
                if e > 0:
                    fs += [x] * e
                else:
                    y = z3.Real(f"rec:{a.id}")
                    side.append(("rec", a))
                    fs += [y] * (-e)
            if v == 1 and fs:
                t = fs[0]
                fs = fs[1:]
            else:
                t = c
            for f in fs:
                t = t * f
            terms.append(t)
        if not terms:
            return z3.IntVal(0) if isint else z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def boolean(self, b, side):
        if b is True or b is False:
            return z3.BoolVal(b)
        op = b[0]
        if op == "<":
            return self.poly(b[1], side) < 0
        if op == "<=":
            return self.poly(b[1], side) <= 0
        if op == "==":
            return self.poly(b[1], side) == 0
        if op == "not":
            return z3.Not(self.boolean(b[1], side))
        if op == "and":
            return z3.And(*[self.boolean(x, side) for x in b[1:]])
        if op == "or":
            return z3.Or(*[self.boolean(x, side) for x in b[1:]])
        if op == "b":
            return self.atom(b[1], side)
        if op == "z3":
            return b[1]
        raise Unsupported(f"boolean {b!r}")

    def axioms(self, side):
        out, done, todo = [], set(), list(side)
        while todo:
            a = todo.pop()
            if a in done:
                continue
            done.add(a)
            s2 = []
            if isinstance(a, tuple):
                x = self.atom(a[1], s2)
                x = z3.ToReal(x) if a[1].sort == "I" else x
                out.append(x * z3.Real(f"rec:{a[1].id}") == 1)
            elif a.kind == "inv":
                out.append(self.atom(a, []) * self.poly(a.args[0], s2) == 1)
            elif a.kind == "sqrt":
                x = self.atom(a, [])
                q = self.poly(a.args[0], s2)
                out += [x >= 0, x * x == q]
            elif a.kind == "floor":
                x = z3.ToReal(self.atom(a, []))
                q = self.poly(a.args[0], s2)
                q = z3.ToReal(q) if q.sort() == z3.IntSort() else q
                out += [x <= q, q < x + 1]
            todo += s2
        return out


class Obligation(dict):
    pass


class Frame:
    def __init__(self, prefix):
        self.prefix, self.pos, self.dec = prefix, 0, []
        self.pending = []


class Ctx:
    def __init__(self, report, name, timeout=4000, float_mode="real"):
        self.report = report          # Report: where obligations go
        self.name = name
        self.z = Z3()
        self.timeout = timeout
        self.solver = z3.Solver()
        self.frames = []
        self.pc = []
        self.subcache = {}
        self.nfresh = 0
        self.fprefix = ""
        self.qcache = {}
        self.where = ""
        self.deadline = None

    # -- fresh symbols are deterministic along a path
    def fresh(self, name, sort="R"):
        self.nfresh += 1
        return var(f"{name}~{self.fprefix}{self.nfresh}", sort)

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise Infeasible
        self.pc.append(b)
        side = []
        self.solver.add(self.z.boolean(b, side))
        for x in self.z.axioms(side):
            self.solver.add(x)

    def sat(self, b=True, timeout=None):
        """False when pc and b is certainly unsatisfiable."""
        if b is False:
            return False
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit of the obligation generator")
        self.solver.push()
        try:
            side = []
            if b is not True:
                self.solver.add(self.z.boolean(b, side))
                for x in self.z.axioms(side):
                    self.solver.add(x)
            self.solver.set("timeout", timeout or 1500)
            t0 = time.time()
            r = self.solver.check()
            self.report.solver_time += time.time() - t0
            self.unknown = r == z3.unknown
            return r != z3.unsat
        finally:
            self.solver.pop()

    def valid(self, b, timeout=None):
        """True when pc implies b."""
        if b is True:
            return True
        if b is False:
            return not self.sat(True, timeout or self.timeout)
        if b in self.pc:
            return True
        if isinstance(b, tuple) and b[0] == "and":
            return all(self.valid(x, timeout) for x in b[1:])
        key = (tuple(self.pc), b)
        if key not in self.qcache:
            r = not self.sat(bnot(b), timeout or self.timeout)
            if not r and self.unknown:
                r = self.valid_nl(b, timeout)
            self.qcache[key] = r
        return self.qcache[key]

    def valid_nl(self, b, timeout=None):
        """Second attempt: the relevant part of the path condition only, real relaxation, nlsat."""
        polys = [p for c in self.pc + [b] for p in bool_polys(c)]
        try:
            ren = {}

            def rl(a):
                if a.sort == "I" and a.kind == "var":
                    return var("rl:" + a.name, "R")
                if a.sort == "I" and a.kind not in ("floor",):
                    return P.atom(atom("var", "rl:" + repr(a), (), "R"))
                return None

            def rb(c):
                if c is True or c is False or c[0] == "b":
                    return c
                if c[0] in ("<", "<=", "=="):
                    return (c[0], c[1].subst(rl))
                return (c[0],) + tuple(rb(x) for x in c[1:])

            s = z3.Tactic("qfnra-nlsat").solver() if True else z3.Solver()
            s.set("timeout", timeout or self.timeout)
            side = []
            for c in self.pc:
                s.add(self.z.boolean(rb(c), side))
            s.add(z3.Not(self.z.boolean(rb(b), side)))
            for x in self.z.axioms(side):
                s.add(x)
            t0 = time.time()
            r = s.check()
            self.report.solver_time += time.time() - t0
            return r == z3.unsat
        except z3.Z3Exception:
            return False

    def branch(self, b):
        if b is True or b is False:
            return b
        f = self.frames[-1]
        if f.pos < len(f.prefix):
            d = f.prefix[f.pos]
            f.pos += 1
            f.dec.append(d)
            self.assume(b if d else bnot(b))
            return d
        t, e = self.sat(b), self.sat(bnot(b))
        if not t and not e:
            raise Infeasible
        if t and e:
            f.pending.append(f.dec + [False])
        d = t
        f.dec.append(d)
        f.prefix = f.prefix + [d]
        f.pos += 1
        self.assume(b if d else bnot(b))
        return d

    def choose(self, n, what=""):
        """Nondeterministic choice among n alternatives."""
        for i in range(n - 1):
            f = self.frames[-1]
            if f.pos < len(f.prefix):
                d = f.prefix[f.pos]
                f.pos += 1
                f.dec.append(d)
            else:
                f.pending.append(f.dec + [False])
                d = True
                f.dec.append(True)
                f.prefix = f.prefix + [True]
                f.pos += 1
            if d:
                return i
        return n - 1

    def explore(self, run, limit=4000):
        """All paths of run(ctx); results of the feasible paths."""
        out = []
        stack = [[]]
        n = 0
        base, nf = len(self.pc), self.nfresh
        while stack:
            prefix = stack.pop()
            n += 1
            if n > limit:
                raise Unsupported("too many paths")
            f = Frame(prefix)
            self.frames.append(f)
            self.solver.push()
            self.nfresh = nf
            try:
                out.append(run(self))
            except Infeasible:
                pass
            finally:
                self.solver.pop()
                del self.pc[base:]
                self.frames.pop()
            stack.extend(f.pending)
        self.nfresh = nf
        return out

    def sub(self, site, run):
        """Nested exploration (cached when the enclosing path is replayed)."""
        key = (site, tuple(tuple(f.dec) for f in self.frames), self.nfresh, self.fprefix)
        if key not in self.subcache:
            pre, nf = self.fprefix, self.nfresh
            self.fprefix, self.nfresh = f"{pre}{nf}.", 0
            try:
                self.subcache[key] = self.explore(run)
            finally:
                self.fprefix, self.nfresh = pre, nf
        self.nfresh += 1
        return self.subcache[key]

    # -- obligations
    def require(self, name, b, detail=""):
        t0 = time.time()
        ok = self.valid(b)
        self.report.add(self.name + ": " + name, ok, "z3", time.time() - t0, detail or (None if ok else f"not implied: {show(b)} under {show_pc(self.pc)}"))
        return ok

    def require_equal(self, name, a, b, detail=""):
        t0 = time.time()
        a, b = P.of(a), P.of(b)
        if equal(a, b):
            self.report.add(self.name + ": " + name, True, "normal form", time.time() - t0)
            return True
        # equalities known on this path
        ok = self.valid(cmp("==", a, b))
        if not ok:
            a2, b2 = self.congruent(a, b)
            if a2 is not a or b2 is not b:
                ok = equal(a2, b2) or self.valid(cmp("==", a2, b2))
        self.report.add(self.name + ": " + name, ok, "z3", time.time() - t0, detail or (None if ok else f"{str(a)[:400]}  should equal  {str(b)[:400]}  under {show_pc(self.pc)}"))
        return ok

    def congruent(self, *ps):
        """The terms with applications whose arguments are equal on this path identified."""
        reps = []
        for x in sorted({x for p in ps for x in p.all_atoms() if x.kind == "fn" and x.args}, key=str):
            if len(reps) < 40 and all(isinstance(q, P) for q in x.args):
                reps.append(x)
        m = {}
        for i, x in enumerate(reps):
            for y in reps[:i]:
                if y not in m and y.name == x.name and len(y.args) == len(x.args) and all(self.eq(u, v) for u, v in zip(x.args, y.args)):
                    m[x] = P.atom(y)
                    break
        return [p.subst(m.get) for p in ps] if m else ps

    def eq(self, a, b):
        """Known equal on this path?"""
        a, b = P.of(a), P.of(b)
        return equal(a, b) or self.valid(cmp("==", a, b))


def show(b):
    return str(b)[:300]


def show_pc(pc):
    return "; ".join(show(c) for c in pc)[:1500]


class Report:
    """Obligations merged by name: an obligation is discharged when it is on every path."""

    def __init__(self):
        self.ob = {}
        self.solver_time = 0
        self.functions = {}
        self.trusted = set()
        self.notes = []
        self.assumptions = set()
        self.known = {}

    def add(self, name, ok, backend, t=0.0, detail=None):
        o = self.ob.setdefault(name, dict(name=name, status="proved", backend=backend, time=0.0, instances=0))
        o["instances"] += 1
        o["time"] += t
        if backend not in o["backend"]:
            o["backend"] += "+" + backend
        if not ok:
            o["status"] = "failed"
            o.setdefault("detail", detail)

    def fail(self, name, detail):
        self.add(name, False, "generator", 0, detail)

    def out(self):
        return dict(obligations=list(self.ob.values()), functions=sorted(self.functions.items()), trusted=sorted(self.trusted), notes=self.notes, assumptions=sorted(self.assumptions), known={k: sorted(v) for k, v in self.known.items()}, solver_time=self.solver_time)
