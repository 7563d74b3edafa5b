"""Terms: Laurent polynomials with rational coefficients over hash-consed atoms.

An atom is a variable, an array element, 1/p, sqrt(p), floor(p), or any named
function of polynomials.  Equality of two terms is decided by clearing the
denominators (denominators are non zero: a recorded assumption) and comparing
normal forms, so it is an exact decision for rational functions of the atoms.
"""
from fractions import Fraction
import itertools

_atoms = {}
_ids = itertools.count()


class Atom:
    __slots__ = ("id", "kind", "args", "sort", "name", "_h")

    def __repr__(self):
        if self.kind == "var":
            return self.name
        return f"{self.name}({', '.join(map(str, self.args))})"


def atom(kind, name, args=(), sort="R"):
    args = tuple(P.of(a) if isinstance(a, (int, float, Fraction)) and not isinstance(a, bool) else a for a in args)
    k = (kind, name, args, sort)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind, a.name, a.args, a.sort = kind, name, args, sort
        a.id = next(_ids)
        _atoms[k] = a
    return a


_fresh = itertools.count()


def fresh(name, sort="R"):
    return P.atom(atom("var", f"{name}!{next(_fresh)}", (), sort))


def var(name, sort="R"):
    return P.atom(atom("var", name, (), sort))


def app(name, *args, sort="R"):
    return P.atom(atom("fn", name, args, sort))


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class P:
    __slots__ = ("m", "_hash")

    def __init__(self, m):
        self.m = m
        self._hash = None

    @staticmethod
    def of(c):
        if isinstance(c, P):
            return c
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, float):
            c = Fraction(c)
        if not isinstance(c, (int, Fraction)):
            raise TypeError(f"not a number: {c!r}")
        c = norm(c)
        return P({(): c}) if c else P({})

    @staticmethod
    def atom(a):
        return P({((a, 1),): 1})

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(frozenset((tuple((a.id, e) for a, e in k), v) for k, v in self.m.items()))
        return self._hash

    def __eq__(self, o):
        if not isinstance(o, P):
            if isinstance(o, (int, float, Fraction)) and not isinstance(o, bool):
                o = P.of(o)
            else:
                return NotImplemented
        return self.m == o.m

    def const(self):
        """The value when constant, else None."""
        if not self.m:
            return 0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def __add__(self, o):
        if not isinstance(o, P):
            try:
                o = P.of(o)
            except TypeError:
                return NotImplemented
        a, b = (self.m, o.m) if len(self.m) >= len(o.m) else (o.m, self.m)
        r = dict(a)
        for k, v in b.items():
            c = r.get(k, 0) + v
            if c:
                r[k] = norm(c)
            else:
                r.pop(k, None)
        return P(r)

    __radd__ = __add__

    def __neg__(self):
        return P({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        if not isinstance(o, P):
            try:
                o = P.of(o)
            except TypeError:
                return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return P.of(o) - self

    def scale(self, c):
        return P({k: norm(v * c) for k, v in self.m.items()}) if c else P({})

    def __mul__(self, o):
        if not isinstance(o, P):
            try:
                o = P.of(o)
            except TypeError:
                return NotImplemented
        c = self.const()
        if c is not None:
            return o.scale(c)
        c = o.const()
        if c is not None:
            return self.scale(c)
        r = {}
        extra = None
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k, red = mono_mul(k1, k2)
                v = v1 * v2
                if red is None:
                    w = r.get(k, 0) + v
                    if w:
                        r[k] = norm(w)
                    else:
                        r.pop(k, None)
                else:
                    t = P({k: norm(v)})
                    for q in red:
                        t = t * q
                    extra = t if extra is None else extra + t
        r = P(r)
        return r if extra is None else r + extra

    __rmul__ = __mul__

    def __pow__(self, n):
        if n < 0:
            return self.inv() ** (-n)
        r = P.of(1)
        for _ in range(n):
            r = r * self
        return r

    def inv(self):
        if not self.m:
            raise ZeroDivisionError
        if len(self.m) == 1:
            (k, v), = self.m.items()
            r = P.of(Fraction(1) / v)
            for a, e in k:
                if a.kind == "inv":
                    r = r * (a.args[0] ** e)
                elif a.kind == "sqrt":
                    r = r * (P.atom(a) * a.args[0].inv()) ** e
                else:
                    r = r * P({((a, -e),): 1})
            return r
        # common monomial and leading coefficient
        common = None
        for k in self.m:
            d = dict(k)
            if common is None:
                common = d
            else:
                common = {a: min(common.get(a, 0), d.get(a, 0)) if (common.get(a, 0) > 0 and d.get(a, 0) > 0) else (max(common.get(a, 0), d.get(a, 0)) if common.get(a, 0) < 0 and d.get(a, 0) < 0 else 0)
                          for a in set(common) & set(d)}
        common = {a: e for a, e in common.items() if e and a.kind not in ("inv", "sqrt")}
        lead = self.m[max(self.m, key=lambda k: tuple((a.id, e) for a, e in k))]
        q = self.scale(Fraction(1) / lead)
        r = P.of(Fraction(1) / lead)
        if common:
            mono = P({tuple(sorted(common.items(), key=lambda t: t[0].id)): 1})
            q = q * mono.inv()
            r = r * mono.inv()
        return r * P.atom(atom("inv", "inv", (q,)))

    def __truediv__(self, o):
        if not isinstance(o, (P, int, float, Fraction)):
            return NotImplemented
        return self * P.of(o).inv()

    def __rtruediv__(self, o):
        return P.of(o) * self.inv()

    def atoms(self):
        return {a for k in self.m for a, _ in k}

    def all_atoms(self):
        seen, todo = set(), list(self.atoms())
        while todo:
            a = todo.pop()
            if a not in seen:
                seen.add(a)
                for q in a.args:
                    if isinstance(q, P):
                        todo.extend(q.atoms())
        return seen

    def is_int(self):
        return all(isinstance(v, int) for v in self.m.values()) and all(a.sort == "I" and e > 0 for k in self.m for a, e in k)

    def subst(self, f, deep=True):
        """Replace atoms: f(atom) -> P or None."""
        cache = {}

        def sa(a):
            if a in cache:
                return cache[a]
            r = f(a)
            if r is None:
                if deep and a.args:
                    na = tuple(q.subst(f) if isinstance(q, P) else q for q in a.args)
                    if na != a.args:
                        r = rebuild(a, na)
            cache[a] = r
            return r

        if not any(sa(a) is not None for a in self.atoms()):
            return self
        out = P({})
        for k, v in self.m.items():
            t, rest = P.of(v), []
            for a, e in k:
                s = sa(a)
                if s is None:
                    rest.append((a, e))
                else:
                    t = t * (s ** e)
            if rest:
                t = t * P({tuple(rest): 1})
            out = out + t
        return out

    def coeff(self, a, n):
        """Coefficient of atom a to the power n (exact)."""
        r = {}
        for k, v in self.m.items():
            e = dict(k).get(a, 0)
            if e == n:
                r[tuple((b, x) for b, x in k if b is not a)] = v
        return P(r)

    def degree(self, a):
        return max((dict(k).get(a, 0) for k in self.m), default=0)

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for k, v in sorted(self.m.items(), key=lambda t: tuple((a.id, e) for a, e in t[0]))[:40]:
            s = "*".join((str(a) if e == 1 else f"{a}^{e}") for a, e in k)
            out.append(str(v) if not s else (s if v == 1 else ("-" + s if v == -1 else f"{v}*{s}")))
        return " + ".join(out) + (" + ..." if len(self.m) > 40 else "")


REBUILD = {}  # kind -> f(atom, args): how to build the atom again after a substitution


def rebuild(a, args):
    if a.kind in REBUILD:
        return REBUILD[a.kind](a, args)
    if a.kind == "inv":
        return args[0].inv()
    if a.kind == "sqrt":
        return sqrt(args[0])
    if a.kind == "floor":
        return floor(args[0])
    return P.atom(atom(a.kind, a.name, args, a.sort))


def mono_mul(k1, k2):
    if not k1:
        return k2, None
    if not k2:
        return k1, None
    out, red = [], None
    i = j = 0
    while i < len(k1) and j < len(k2):
        a, e = k1[i]
        b, f = k2[j]
        if a is b:
            s = e + f
            if a.kind == "sqrt" and abs(s) >= 2:
                h = int(s / 2)
                red = (red or []) + [a.args[0] ** h]
                s -= 2 * h
            elif s > 1 and a.kind in ("delta", "ind"):
                s = 1
            if s:
                out.append((a, s))
            i += 1
            j += 1
        elif a.id < b.id:
            out.append(k1[i])
            i += 1
        else:
            out.append(k2[j])
            j += 1
    out.extend(k1[i:])
    out.extend(k2[j:])
    return tuple(out), red


def sqrt(p):
    p = P.of(p)
    c = p.const()
    if c is not None:
        import math
        n, d = Fraction(c).numerator, Fraction(c).denominator
        if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return P.of(Fraction(math.isqrt(n), math.isqrt(d)))
    return P.atom(atom("sqrt", "sqrt", (p,)))


def floor(p):
    p = P.of(p)
    c = p.const()
    if c is not None:
        import math
        return P.of(math.floor(c))
    if p.is_int():
        return p
    return P.atom(atom("floor", "floor", (p,), "I"))


def ceil(p):
    return -floor(-P.of(p))


def is_zero(p, depth=0):
    """Exact test of p == 0 for non zero denominators."""
    p = P.of(p)
    while p.m:
        invs = [a for a in p.atoms() if a.kind == "inv"]
        if not invs:
            break
        a = max(invs, key=lambda t: t.id)
        q = a.args[0]
        K = p.degree(a)
        out = P({})
        parts = {}
        for k, v in p.m.items():
            e = dict(k).get(a, 0)
            parts.setdefault(e, {})[tuple((b, x) for b, x in k if b is not a)] = v
        for e, m in parts.items():
            out = out + P(m) * (q ** (K - e))
        p = out
    return not p.m


def equal(a, b):
    a, b = P.of(a), P.of(b)
    return a.m == b.m or is_zero(a - b)


DERIV = {}  # function name -> f(atom, d) -> P ; d maps P -> its derivative


def diff(p, v, cache=None):
    """Derivative with respect to the atom v (or a direction: dict atom -> P)."""
    cache = {} if cache is None else cache
    direction = v if isinstance(v, dict) else {v: P.of(1)}

    def da(a):
        if a in cache:
            return cache[a]
        if a in direction:
            r = P.of(direction[a])
        elif not a.args or a.kind == "sel" or a.sort == "I":
            r = P.of(0)
        elif a.kind == "inv":
            r = -d(a.args[0]) * P.atom(a) ** 2
        elif a.kind == "sqrt":
            r = d(a.args[0]) * P.atom(a) * a.args[0].inv() * Fraction(1, 2)
        elif a.name in DERIV:
            r = DERIV[a.name](a, d)
        else:
            if any(isinstance(q, P) and d(q).m for q in a.args):
                raise NotImplementedError("derivative of " + str(a))
            r = P.of(0)
        cache[a] = r
        return r

    def d(q):
        out = P({})
        for k, c in q.m.items():
            for n, (a, e) in enumerate(k):
                g = da(a)
                if g.m:
                    rest = [t for i, t in enumerate(k) if i != n]
                    if e != 1:
                        rest.insert(n, (a, e - 1))
                    if a.kind == "sqrt" and e - 1 < 0:
                        raise NotImplementedError
                    out = out + P({tuple(rest): norm(c * e)}) * g
        return out

    return d(P.of(p))


# ---- Booleans: True/False, ("<",p) p<0, ("<=",p), ("==",p), ("not",b), ("and",..), ("or",..), ("b",atom)

def cmp(op, a, b):
    p = P.of(a) - P.of(b)
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    if op == "!=":
        return bnot(cmp("==", a, b))
    c = p.const()
    if c is not None:
        return c < 0 if op == "<" else (c <= 0 if op == "<=" else c == 0)
    if op == "==":
        lead = p.m[max(p.m, key=lambda k: tuple((a.id, e) for a, e in k))]
        p = p.scale(Fraction(1) / abs(lead)) if not p.is_int() else p
        if lead < 0:
            p = -p
        return ("==", p)
    if p.is_int():
        if op == "<":
            p, op = p + 1, "<="
        r = int_floor_cmp(p)
        if r is not None:
            return r
    return (op, p)


def int_floor_cmp(p):
    """p <= 0 for an integer p that contains exactly one floor atom with coefficient +-1,
    rewritten without it."""
    fl = [(k, v) for k, v in p.m.items() if any(a.kind == "floor" for a, _ in k)]
    if len(fl) != 1:
        return None
    k, v = fl[0]
    if len(k) != 1 or k[0][1] != 1 or v not in (1, -1):
        return None
    a = k[0][0]
    rest = P({q: c for q, c in p.m.items() if q != k})
    if v == -1:  # rest <= floor(x)  <=>  rest <= x
        return cmp("<=", rest, a.args[0])
    # floor(x) <= -rest  <=>  x < -rest + 1
    return cmp("<", a.args[0], 1 - rest)


def bnot(b):
    if b is True or b is False:
        return not b
    if b[0] == "not":
        return b[1]
    if b[0] == "<":
        return cmp("<=", -b[1], 0)
    if b[0] == "<=":
        return cmp("<", -b[1], 0)
    if b[0] == "and":
        return bor(*[bnot(x) for x in b[1:]])
    if b[0] == "or":
        return band(*[bnot(x) for x in b[1:]])
    return ("not", b)


def band(*bs):
    out = []
    for b in bs:
        if b is False:
            return False
        if b is True:
            continue
        if b[0] == "and":
            out.extend(b[1:])
        else:
            out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else ("and", *out)


def bor(*bs):
    out = []
    for b in bs:
        if b is True:
            return True
        if b is False:
            continue
        if b[0] == "or":
            out.extend(b[1:])
        else:
            out.append(b)
    if not out:
        return False
    return out[0] if len(out) == 1 else ("or", *out)


def bool_polys(b):
    if b is True or b is False:
        return []
    if b[0] in ("<", "<=", "=="):
        return [b[1]]
    if b[0] == "b":
        return [P.atom(b[1])] if isinstance(b[1], Atom) else []
    return [p for x in b[1:] for p in bool_polys(x)]
