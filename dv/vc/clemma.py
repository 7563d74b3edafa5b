"""Lemmas over the contracts: what the whole rendering of the triangles shows, by induction over
the faces, and what two triangles that share an edge do with the pixels on it."""
import time
import z3
from .cspecs import *
from .ctri import *
from .cscene import *


def prove(rep, name, hyp, goal):
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(*hyp)
    sat = s.check()
    s.add(z3.Not(goal))
    r = s.check()
    rep.solver_time += time.time() - t0
    rep.add("lemma: " + name, r == z3.unsat, "z3", time.time() - t0, None if r == z3.unsat else str(r))
    rep.add("lemma (not vacuous): " + name, sat != z3.unsat, "z3")


def v_nearest(rep):
    """The loop of renderScene applies, for t = 0 .. NT-1, the contract of the triangles at one pixel:
    when triangle t is drawn and covers the pixel with a depth z(t) smaller than the depth buffer, the
    pixel takes its colour and its depth; otherwise nothing changes (v_triangle).  owner: the triangle
    whose colour is shown, -1 for the background (whose depth is infinite)."""
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    z, cov = z3.Function("z", I, R), z3.Function("cov", I, B)
    i = z3.Int("i")

    def inv(n, zb, own):
        return z3.And(n >= 0, z3.Or(
            z3.And(own == -1, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(cov(i))))),
            z3.And(0 <= own, own < n, cov(own), zb == z(own), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, cov(i)), z3.And(z(i) >= zb, z3.Implies(i < own, z(i) > zb)))))))
    n, own, zb = z3.Int("n"), z3.Int("own"), z3.Real("zb")
    prove(rep, "before the first triangle the pixel shows the background", [zb == zb], inv(z3.IntVal(0), zb, z3.IntVal(-1)))
    take = z3.And(cov(n), z3.Or(own == -1, z(n) < zb))
    prove(rep, "after each triangle the pixel shows the nearest of those drawn so far, the first on ties", [inv(n, zb, own)], inv(n + 1, z3.If(take, z(n), zb), z3.If(take, n, own)))
    # the backward pass visits the triangles in the other order and gives the gradient to one whose depth is that of the buffer
    N = z3.Int("N")
    k = z3.Int("k")
    prove(rep, "without ties exactly the visible triangle has the depth of the buffer", [inv(N, zb, own), own >= 0, 0 <= k, k < N, cov(k), z(k) == zb, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N, cov(i), i != own), z(i) != zb))], k == own)


def v_shared_edge(rep):
    """inrow() of a left edge l and a right edge r: l > 0 (strict) or l >= 0, and r >= 0.  The same line is
    the left edge of one triangle and, with the opposite sign, the right edge of the other."""
    l = z3.Real("l")
    prove(rep, "strict edges: a pixel is on exactly one side of an edge shared by two triangles of a row", [l == l], z3.Xor(l > 0, -l >= 0))
    prove(rep, "strict edges: a pixel exactly on a shared edge is drawn by the triangle on the left of the edge", [l == 0], z3.And(z3.Not(l > 0), -l >= 0))
    prove(rep, "non-strict edges: a pixel exactly on a shared edge is drawn by both triangles", [l == 0], z3.And(l >= 0, -l >= 0))


def v_order(rep):
    """The edges are blended in the order of the sorted list: positions p < q hold triangles whose sums of
    depths are decreasing (the comparator is a strict weak order: sort() is specified)."""
    v = z3.Function("v", z3.IntSort(), z3.RealSort())
    a, b, c = z3.Ints("a b c")
    lt = lambda x, y: v(x) > v(y)
    prove(rep, "the order of the triangles is a strict weak order", [v(a) == v(a)],
          z3.And(z3.Not(lt(a, a)), z3.Implies(lt(a, b), z3.Not(lt(b, a))), z3.Implies(z3.And(lt(a, b), lt(b, c)), lt(a, c)), z3.Implies(z3.And(z3.Not(lt(a, b)), z3.Not(lt(b, a)), z3.Not(lt(b, c)), z3.Not(lt(c, b))), z3.And(z3.Not(lt(a, c)), z3.Not(lt(c, a))))))
