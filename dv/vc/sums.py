"""Sums over index sets of arbitrary size, index equalities and indicators, on top of term.py.

sum atom   : kind "sum", name "F|V@h", args (body,): the sum of the body over the bound
             variables #h.0:F, #h.1:V; the body is one monomial, everything that does not
             depend on the bound variables is outside, nested linear sums are merged, and
             bound variables fixed by an index equality are eliminated
delta atom : 1 when an index term is zero, else 0
ind atom   : 1 when a condition on real terms holds, else 0
"""
import itertools
from .term import P, Atom, atom, var, norm, is_zero, cmp, REBUILD, diff as _diff
from . import term

_n = itertools.count()
SIZE = {}     # size P -> Base


class Base:
    """An index set 0..n-1 of unknown size."""
    _all = {}

    def __new__(cls, name, size=None):
        if name in cls._all:
            return cls._all[name]
        o = object.__new__(cls)
        cls._all[name] = o
        o.name = name
        o.size = size if size is not None else var("n:" + name, "I")
        SIZE.setdefault(o.size, o)
        return o

    def __repr__(self):
        return self.name


_sk = {}


def skey(a):
    """Structure of an atom, whatever the names of the index variables."""
    r = _sk.get(a)
    if r is None:
        if a.kind == "var":
            r = a.name.split("~")[0] if a.name[0] != "#" else a.name.split(":")[1]
        else:
            r = a.name + "(" + ",".join(skp(q) if isinstance(q, P) else str(q) for q in a.args) + ")"
        _sk[a] = r
    return r


def skp(p):
    return "+".join(sorted(f"{c}*" + "*".join(sorted(f"{skey(a)}^{e}" for a, e in k)) for k, c in p.m.items()))


def leading(p):
    """Coefficient that fixes the orientation of p, not depending on variable names if possible."""
    ks = [k for k in p.m if k]
    return p.m[max(ks, key=lambda k: (sorted(f"{skey(a)}^{e}" for a, e in k), tuple((x.id, e) for x, e in k)))]


def delta(a, b=0):
    p = P.of(a) - P.of(b)
    c = p.const()
    if c is not None:
        return P.of(1 if c == 0 else 0)
    if leading(p) < 0:
        p = -p
    return P.atom(atom("delta", "delta", (p,)))


def ind(c):
    """Indicator of a condition (term.cmp booleans)."""
    if c is True or c is False:
        return P.of(int(c))
    op = c[0]
    if op == "and":
        r = P.of(1)
        for x in c[1:]:
            r = r * ind(x)
        return r
    if op == "or":
        r = P.of(1)
        for x in c[1:]:
            r = r * (1 - ind(x))
        return 1 - r
    if op == "not":
        return 1 - ind(c[1])
    if op == "<=" and c[1].is_int():
        p = c[1]
        if leading(p) < 0:
            return 1 - P.atom(atom("ind", "<=", (1 - p,)))
        return P.atom(atom("ind", "<=", (p,)))
    if op == "<=":
        return 1 - ind(cmp("<", -c[1], 0))
    if op == "b":
        return P.atom(atom("ind", "b", (P.atom(c[1]),)))
    if op == "==" and c[1].is_int():
        return delta(c[1])
    p = c[1]
    # positive scaling does not matter
    if p.m:
        lead = leading(p)
        p = p.scale(term.Fraction(1) / abs(lead)) if op == "<" else p.scale(term.Fraction(1) / lead)
    return P.atom(atom("ind", op, (p,)))


def _re_delta(a, args):
    return delta(args[0])


def _re_ind(a, args):
    if a.name == "b":
        return P.atom(atom("ind", "b", args))
    return ind(cmp(a.name, args[0], 0))


def cond_of(a):
    if a.kind == "delta":
        return cmp("==", a.args[0], 0)
    if a.name == "b":
        (k, _), = a.args[0].m.items()
        return ("b", k[0][0])
    return cmp(a.name, a.args[0], 0)


_fv = {}


def fv(a):
    """Free variables of an atom."""
    r = _fv.get(a)
    if r is None:
        if a.kind == "var":
            r = frozenset() if a.name[0] == "#" else frozenset([a])
        else:
            r = frozenset().union(*[fvp(q) for q in a.args if isinstance(q, P)])
        _fv[a] = r
    return r


def fvp(p):
    r = frozenset()
    for a in p.atoms():
        r = r | fv(a)
    return r


_ht = {}


def height(a):
    r = _ht.get(a)
    if r is None:
        r = max([heightp(q) for q in a.args if isinstance(q, P)], default=0)
        if a.kind == "sum":
            r = int(a.name.split("@")[1])
        _ht[a] = r
    return r


def heightp(p):
    return max((height(a) for a in p.atoms()), default=0)


def fresh_index(dim):
    return var(f"{dim}~{next(_n)}", "I")


def atom_of(p):
    (k, _), = p.m.items()
    return k[0][0]


_ren = {}


def rename(p, m):
    """p with index variables replaced (dict atom -> P); results are kept per atom."""
    ms = frozenset(m)
    key = tuple(sorted(((a.id, hash(t), repr(t)) for a, t in m.items())))
    cache = _ren.setdefault(key, {})

    def sa(a):
        if not (fv(a) & ms or a in ms) and not _bound_hit(a, ms):
            return None
        r = cache.get(a, 0)
        if r == 0:
            if a in m:
                r = m[a]
            else:
                na = tuple(q.subst(sa, False) if isinstance(q, P) else q for q in a.args)
                r = term.rebuild(a, na) if na != a.args else None
            cache[a] = r
        return r
    return p.subst(sa, False)


def _bound_hit(a, ms):
    return any(v.name[0] == "#" for v in ms) and any(bound_in(v.name, a) for v in ms)


def sub1(p, v, t):
    return rename(p, {v: t})


LETS = {}    # array name -> f(args) giving its definition


def expand(p, keep="\0"):
    """Every abbreviation of the outermost level replaced by its definition (except those whose name starts with keep)."""
    top = [a for a in p.all_atoms() if a.kind == "fn" and a.name in LETS and not a.name.startswith(keep)]
    if not top:
        return None
    lv = max(LETS[a.name][0] for a in top)
    cache = {}

    def sa(a):
        if a in cache:
            return cache[a]
        r = None
        if a.kind == "fn" and a.name in LETS and LETS[a.name][0] == lv and not a.name.startswith(keep):
            r = LETS[a.name][1](a.args)
        elif a.args and lv in _levels(a):
            if a.kind == "sum":   # opened first: the definition may contain sums of its own
                vs, b = open_sum(a)
                r = sum_over(vs, b.subst(sa, False))
            else:
                r = term.rebuild(a, tuple(q.subst(sa, False) if isinstance(q, P) else q for q in a.args))
        cache[a] = r
        return r
    return p.subst(sa, False)


_lev = {}


def _levels(a):
    """Levels of the abbreviations in a."""
    r = _lev.get(a)
    if r is None:
        r = frozenset().union(*[_levels(b) for q in a.args if isinstance(q, P) for b in q.atoms()])
        if a.kind == "fn" and a.name in LETS:
            r = r | {LETS[a.name][0]}
        _lev[a] = r
    return r


def open_sum(a):
    """[(fresh atom, dim name)], body"""
    dims, h = a.name.split("@")
    body, vs = a.args[0], []
    m = {}
    for i, d in enumerate(dims.split("|")):
        x = fresh_index(d)
        m[atom_of(var(f"#{h}.{i}:{d}", "I"))] = x
        vs.append((atom_of(x), d))
    return vs, rename(body, m)


def sum_over(vs, body):
    """vs: [(atom, dim name)]; the sum of the P body over them, in normal form."""
    out = P({})
    for k, c in body.m.items():
        out = out + _sum_mono(list(vs), k, c)
    return out


def _sum_mono(vs, k, c):
    # open nested linear sums that depend on the variables
    names = {v for v, _ in vs}
    for n, (a, e) in enumerate(k):
        if a.kind == "sum" and e >= 1 and fv(a) & names:
            rest = k[:n] + (((a, e - 1),) if e > 1 else ()) + k[n + 1:]
            vs2, b2 = open_sum(a)
            return sum_over(vs + vs2, b2 * P({tuple(sorted(rest, key=lambda t: t[0].id)): c}))
    # eliminate variables fixed by an equality
    for n, (a, e) in enumerate(k):
        if a.kind == "delta":
            p = a.args[0]
            for v, d in reversed(vs):
                if v in p.atoms():
                    cv = p.coeff(v, 1)
                    if p.degree(v) == 1 and cv.const() in (1, -1):
                        t = -p.coeff(v, 0) * cv.const()
                        if v in fvp(t):
                            continue
                        rest = P({k[:n] + k[n + 1:]: c})
                        vs2 = [x for x in vs if x[0] is not v]
                        r = sub1(rest, v, t)
                        return sum_over(vs2, r) if vs2 else r
    dep = [(a, e) for a, e in k if fv(a) & names]
    used = frozenset().union(*[fv(a) for a, _ in dep]) if dep else frozenset()
    free = P({tuple((a, e) for a, e in k if not fv(a) & names): c})
    for v, d in vs:
        if v not in used:
            free = free * Base(d).size
    vs = [x for x in vs if x[0] in used]
    if not vs:
        return free * P({tuple(dep): 1})
    # split into connected components
    comp = []
    for a in dep:
        s = {v for v, _ in vs if v in fv(a[0])}
        hit = [x for x in comp if x[0] & s]
        comp = [x for x in comp if not x[0] & s] + [(s.union(*[x[0] for x in hit]), [a] + [y for x in hit for y in x[1]])]
    for s, ats in comp:
        free = free * _close([x for x in vs if x[0] in s], tuple(sorted(ats, key=lambda t: t[0].id)))
    return free


def _close(vs, k):
    body = P({k: 1})
    h = 1 + heightp(body)
    best = None
    groups = sorted(vs, key=lambda x: x[1])
    for perm in itertools.permutations(groups):
        if [d for _, d in perm] != [d for _, d in groups]:
            continue
        m = {v: var(f"#{h}.{i}:{d}", "I") for i, (v, d) in enumerate(perm)}
        b = rename(body, m)
        if len(groups) == 1:
            best = (None, b)
            break
        key = repr(sorted(map(repr, b.m.items())))
        if best is None or key < best[0]:
            best = (key, b)
    b = best[1]
    out = P({})
    for kk, c in b.m.items():
        if len(b.m) > 1 and not all(any(bound_in(f"#{h}.{i}:{d}", a) for a, _ in kk) for i, (_, d) in enumerate(groups)):
            raise NotImplementedError("body of a sum")
        out = out + P({((atom("sum", "|".join(d for _, d in groups) + f"@{h}", (P({kk: 1}),)), 1),): c})
    return out


_bi = {}


def bound_in(name, a):
    """Does the canonical variable occur in a?"""
    r = _bi.get(a)
    if r is None:
        if a.kind == "var":
            r = frozenset([a.name]) if a.name[0] == "#" else frozenset()
        else:
            r = frozenset().union(*[_bi_of(q) for q in a.args if isinstance(q, P)])
        _bi[a] = r
    return name in r


def _bi_hash(a):
    """Does a contain variables bound outside of it?"""
    bound_in("", a)
    if not _bi[a]:
        return False
    return bool(_free_bound(a))


_fb = {}


def _free_bound(a):
    r = _fb.get(a)
    if r is None:
        if a.kind == "var":
            r = frozenset([a.name]) if a.name[0] == "#" else frozenset()
        else:
            r = frozenset()
            for q in a.args:
                if isinstance(q, P):
                    for b in q.atoms():
                        r = r | _free_bound(b)
            if a.kind == "sum":
                own = f"#{a.name.split('@')[1]}."
                r = frozenset(x for x in r if not x.startswith(own))
        _fb[a] = r
    return r


def _bi_of(p):
    r = frozenset()
    for a in p.atoms():
        bound_in("", a)
        r = r | _bi[a]
    return r


def _re_sum(a, args):
    dims, h = a.name.split("@")
    body, m, vs = args[0], {}, []
    for i, d in enumerate(dims.split("|")):
        x = fresh_index(d)
        m[atom_of(var(f"#{h}.{i}:{d}", "I"))] = x
        vs.append((atom_of(x), d))
    return sum_over(vs, body.subst(m.get))


REBUILD["delta"], REBUILD["ind"], REBUILD["sum"] = _re_delta, _re_ind, _re_sum


def Sum(dim, f):
    x = fresh_index(dim.name)
    return sum_over([(atom_of(x), dim.name)], P.of(f(x)))


def ddx(p, rule, cache=None):
    """Derivative; rule(atom) gives the derivative of array elements (None: 0)."""
    cache = {} if cache is None else cache

    def da(a):
        if a in cache:
            return cache[a]
        if a.sort == "I" or a.kind in ("delta", "ind") or a.kind == "var" and rule(a) is None:
            r = P({})
        elif a.kind == "inv":
            r = -d(a.args[0]) * P.atom(a) ** 2
        elif a.kind == "sqrt":
            r = d(a.args[0]) * P.atom(a) * a.args[0].inv() * term.Fraction(1, 2)
        elif a.kind == "sum":
            vs, b = open_sum(a)
            r = sum_over(vs, d(b))
        else:
            r = rule(a)
            if r is None and a.name in LETS:
                r = d(LETS[a.name][1](a.args))
            elif r is None:
                for q in a.args:
                    if isinstance(q, P) and d(q).m:
                        raise NotImplementedError("derivative of " + repr(a))
                r = P({})
        cache[a] = r
        return r

    def d(q):
        out = P({})
        for k, c in q.m.items():
            for n, (a, e) in enumerate(k):
                g = da(a)
                if g.m:
                    rest = [t for i, t in enumerate(k) if i != n]
                    if e != 1:
                        rest.insert(n, (a, e - 1))
                    out = out + P({tuple(rest): norm(c * e)}) * g
        return out

    return d(P.of(p))


def wrt(name, idx):
    """rule for ddx: the derivative with respect to the element idx of array name."""
    def rule(a):
        if a.kind == "fn" and a.name == name:
            r = P.of(1)
            for x, y in zip(a.args, idx):
                r = r * delta(x, y)
            return r
        if a.kind == "var" and a.name == name and not idx:
            return P.of(1)
        return None
    return rule


class Zero:
    """Decides that a term is zero under the path condition of ctx."""

    def __init__(self, ctx, axioms=lambda ps: [], splits=14):
        self.ctx, self.axioms, self.splits = ctx, axioms, splits

    def feasible(self, facts):
        ax = self.axioms(term_polys(facts))
        self.ctx.solver.push()
        try:
            side = []
            for f in list(facts) + list(ax):
                self.ctx.solver.add(self.ctx.z.boolean(f, side))
            for x in self.ctx.z.axioms(side):
                self.ctx.solver.add(x)
            return self.ctx.sat(True)
        finally:
            self.ctx.solver.pop()

    def zero(self, D, facts=(), depth=0):
        D = P.of(D)
        levels = [D]
        while True:
            if self.quick(levels[-1]):
                return True
            E = expand(levels[-1])
            if E is None:
                break
            levels.append(E)
        for E in levels:
            if self.split(E, facts, depth):
                return True
        return self.by_facts(levels[-1], facts) if depth == 0 or len(levels[-1].m) < 30 else False

    def quick(self, D, depth=0):
        """Without case distinctions."""
        if not D.m or is_zero(D):
            return True
        if depth > 3 or not any(a.kind == "sum" for a in D.atoms()):
            return False
        return self.buckets(D, lambda t: self.quick(t, depth + 1))

    def by_facts(self, D, facts):
        if (facts or self.ctx.pc) and len(D.m) < 200:
            try:
                neg = term.bnot(cmp("==", D, 0))
                if not self.feasible(tuple(facts) + (neg,)):
                    return True
            except Exception:
                pass
        return False

    def split(self, D, facts, depth):
        if depth > self.splits:
            return False
        # decide an indicator
        cand = [a for a in D.all_atoms() if a.kind in ("delta", "ind") and not _bi_hash(a)]
        cand = [a for a in cand if not any(b.kind in ("delta", "ind") for q in a.args if isinstance(q, P) for b in q.all_atoms())]
        cand.sort(key=lambda a: a.id)
        if cand:
            a = cand[0]
            c = cond_of(a)
            for val in (1, 0):
                f2 = facts + ((c if val else term.bnot(c)),)
                if not self.feasible(f2):
                    continue
                try:
                    E = D.subst(lambda x: P.of(val) if x is a else None)
                    if val and a.kind == "delta":
                        E = self.equate(E, a.args[0])
                    elif not val and a.kind == "ind" and a.name == "<" and not self.feasible(f2 + (cmp("<", 0, a.args[0]),)):
                        E = self.equate(E, a.args[0])   # neither negative nor positive
                except ZeroDivisionError:
                    continue   # a denominator vanishes in this case: excluded
                if not self.zero(E, f2, depth + 1):
                    return False
            return True
        if any(a.kind == "sum" for a in D.atoms()):
            return self.buckets(D, lambda t: self.zero(t, facts, depth + 1))
        return False

    def buckets(self, D, test):
        """Sums over the same index sets are compared term by term."""
        buckets = {}
        for k, c in D.m.items():
            s = [(a, e) for a, e in k if a.kind == "sum"]
            if len(s) > 1:   # the others are coefficients of the one with most indices
                n = max(a.name.count("|") for a, _ in s)
                s = [(a, e) for a, e in s if a.name.count("|") == n]
            if len(s) == 1 and s[0][1] == 1:
                rest = P({tuple(t for t in k if t[0] is not s[0][0]): c})
                buckets.setdefault(s[0][0].name.split("@")[0], []).append((rest, s[0][0]))
            else:
                buckets.setdefault(None, []).append((P({k: c}), None))
        t = P({})
        for r, _ in buckets.pop(None, []):
            t = t + r
        if not is_zero(t):
            return False
        return all(test(self.merged(name.split("|"), l)) for name, l in buckets.items())

    def merged(self, dims, l):
        vs = [fresh_index(d) for d in dims]
        tot = P({})
        for rest, a in l:
            _, h = a.name.split("@")
            for perm in itertools.permutations(range(len(dims))):
                if all(dims[perm[i]] == dims[i] for i in range(len(dims))):
                    m = {atom_of(var(f"#{h}.{i}:{dims[i]}", "I")): vs[perm[i]] for i in range(len(dims))}
                    # several variables over the same set: the sum over all their permutations
                    tot = tot + rest * rename(a.args[0], m)
        return tot

    def equate(self, E, p):
        """E where p == 0 is known: eliminate one index variable or application."""
        best = None
        for k, c in p.m.items():
            if len(k) == 1 and k[0][1] == 1 and c in (1, -1):
                a = k[0][0]
                if a.kind in ("var", "fn") and not any(a is x for q in P({kk: cc for kk, cc in p.m.items() if kk != k}).atoms() for x in [q]):
                    if best is None or (a.kind == "var", a.id) > (best[0].kind == "var", best[0].id):
                        best = (a, -P({kk: cc for kk, cc in p.m.items() if kk != k}) * c)
        if best is None:
            return E
        a, t = best
        if a in t.all_atoms():
            return E
        return E.subst(lambda x: t if x is a else None)


def _vars(a):
    out, todo, seen = [], [a], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.kind == "var":
            out.append(x)
        if x.kind == "sum":
            # its own bound variables do not count
            own = x.name.split("@")[1]
            out += [v for v in _vars_in(x.args[0]) if not v.name.startswith(f"#{own}.")]
            continue
        for q in x.args:
            if isinstance(q, P):
                todo.extend(q.atoms())
    return out


def _vars_in(p):
    return [v for a in p.atoms() for v in _vars(a)]


def term_polys(facts):
    return [p for f in facts for p in term.bool_polys(f)]
