"""Arrays of arbitrary (symbolic) size with numpy's semantics on exact reals.

The real Python functions of /repo are executed on these arrays.  An array is a buffer
(a function from indices to terms, replaced on every write, so aliasing and in-place
modification behave like numpy's) seen through a view.  An axis is a concrete size, an
index set of unknown size (Base), a concatenation (Cat) or a product (Prod) of those.
What numpy and scipy functions do is stated here: these are the assumed contracts of the
dependencies.
"""
import functools
import itertools
from fractions import Fraction
from . import term
from .ctx import Unsupported, Infeasible
from .term import P, app, var, cmp, band, bor, bnot, sqrt as tsqrt
from .sums import Base, delta, ind, sum_over, fresh_index, atom_of, SIZE, fvp, LETS, rename

CTX = [None]


DETACH = [lambda a: a]   # what a value cut from the differentiation graph becomes


def ctx():
    return CTX[0]


# ------------------------------------------------------------------ sizes

class Dim:
    """A symbolic axis; also the integer that its length is."""

    def __eq__(self, o):
        if isinstance(o, Dim) and type(o) is type(self) and self.key() == o.key():
            return True
        return bool(truth(cmp("==", size(self), size(o))))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def _cmp(self, op, o):
        return truth(cmp(op, size(self), size(o)))

    def __lt__(self, o):
        return self._cmp("<", o)

    def __le__(self, o):
        return self._cmp("<=", o)

    def __gt__(self, o):
        return self._cmp(">", o)

    def __ge__(self, o):
        return self._cmp(">=", o)

    def _arith(self, f, o):
        if isinstance(o, A):
            return NotImplemented
        return mkdim(f(size(self), size(o)))

    def __mul__(self, o):
        return self._arith(lambda a, b: a * b, o)

    __rmul__ = __mul__

    def __add__(self, o):
        return self._arith(lambda a, b: a + b, o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(lambda a, b: a - b, o)

    def __rsub__(self, o):
        return self._arith(lambda a, b: b - a, o)

    def __truediv__(self, o):
        return scalar(size(self) / size(o))

    def __rtruediv__(self, o):
        return scalar(size(o) / size(self))

    def __neg__(self):
        return scalar(-size(self))

    def __repr__(self):
        return str(self.key())


class B(Dim):
    def __init__(self, name, sz=None):
        self.base = Base(name, sz)

    def key(self):
        return ("base", self.base.name)


class Cat(Dim):
    def __init__(self, parts):
        self.parts = tuple(parts)

    def key(self):
        return ("cat",) + tuple(dkey(p) for p in self.parts)


class Prod(Dim):
    def __init__(self, parts):
        self.parts = tuple(parts)

    def key(self):
        return ("prod",) + tuple(dkey(p) for p in self.parts)


class Opq(Dim):
    """A length without known structure: only constant arrays have such an axis."""

    def __init__(self, sz):
        self.sz = sz

    def key(self):
        return ("opq", self.sz)


def dkey(d):
    return d if isinstance(d, int) else d.key()


def size(d):
    if isinstance(d, int):
        return P.of(d)
    if isinstance(d, B):
        return d.base.size
    if isinstance(d, Cat):
        r = P.of(0)
        for p in d.parts:
            r = r + size(p)
        return r
    if isinstance(d, Prod):
        r = P.of(1)
        for p in d.parts:
            r = r * size(p)
        return r
    if isinstance(d, Opq):
        return d.sz
    if isinstance(d, P):
        return d
    if isinstance(d, A) and d.ndim == 0:
        return num(d.item())
    if isinstance(d, float) or isinstance(d, Fraction):
        return P.of(d)
    raise Unsupported(f"not a size: {d!r}")


def mkdim(p):
    c = p.const()
    if c is not None and isinstance(c, int):
        return c
    if p in SIZE:
        return B(SIZE[p].name)
    return Opq(p)


def asdim(d):
    if isinstance(d, bool):
        return int(d)
    if isinstance(d, (int, Dim)):
        return d
    return mkdim(size(d))


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) or isinstance(b, int):
        return False
    return a.key() == b.key()


def indices(d):
    """Generic indices covering the whole axis."""
    if isinstance(d, int):
        return list(range(d))
    if isinstance(d, B):
        x = fresh_index(d.base.name)
        ctx().assume(band(cmp("<=", 0, x), cmp("<", x, d.base.size)))
        return [x]
    if isinstance(d, Cat):
        return [("c", i, x) for i, p in enumerate(d.parts) for x in indices(p)]
    if isinstance(d, Prod):
        return [("p",) + t for t in itertools.product(*[indices(p) for p in d.parts])]
    raise Unsupported("index of an unstructured axis")


def sum_dim(d, f):
    """Sum of f over the axis."""
    if isinstance(d, int):
        r = P.of(0)
        for i in range(d):
            r = r + f(i)
        return r
    if isinstance(d, B):
        x = fresh_index(d.base.name)
        return sum_over([(atom_of(x), d.base.name)], f(x))
    if isinstance(d, Cat):
        r = P.of(0)
        for i, p in enumerate(d.parts):
            r = r + sum_dim(p, lambda x: f(("c", i, x)))
        return r
    if isinstance(d, Prod):
        def rec(k, pre):
            if k == len(d.parts):
                return f(("p",) + pre)
            return sum_dim(d.parts[k], lambda x: rec(k + 1, pre + (x,)))
        return rec(0, ())
    raise Unsupported("sum over an unstructured axis")


def idx_num(i):
    """The integer value of an index, for axes whose position is a number."""
    if isinstance(i, (int, P)):
        return P.of(i)
    raise Unsupported("position on a structured axis")


def idx_eq(i, j):
    """Condition that two indices are equal."""
    if isinstance(i, tuple) and isinstance(j, tuple):
        if i[0] == "c" and j[0] == "c":
            return False if i[1] != j[1] else idx_eq(i[2], j[2])
        if i[0] == "p" and j[0] == "p" and len(i) == len(j):
            return band(*[idx_eq(a, b) for a, b in zip(i[1:], j[1:])])
        raise Unsupported("comparison of indices")
    if isinstance(i, int) and isinstance(j, int):
        return i == j
    return cmp("==", idx_num(i), idx_num(j))


# ------------------------------------------------------------------ truth

class SB:
    """A condition not decided yet; forks the execution when its truth is needed."""

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return ctx().branch(simp(self.c))

    def _b(self, o):
        if isinstance(o, SB):
            return o.c
        if isinstance(o, bool):
            return o
        if isinstance(o, A):
            return o.item()
        return None

    def __and__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else truth(band(self.c, b))

    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else truth(bor(self.c, b))

    __ror__ = __or__

    def __invert__(self):
        return truth(bnot(self.c))

    def __eq__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return bool(self) == (b if isinstance(b, bool) else ctx().branch(b))

    __hash__ = None

    def item(self):
        return self.c


def simp(c):
    """Equations that are identities are true."""
    if isinstance(c, tuple):
        if c[0] == "==":
            return True if term.is_zero(c[1]) else c
        if c[0] in ("<", "<="):
            z = {a for a in c[1].atoms() if a.kind == "sqrt" and term.is_zero(a.args[0])}
            return cmp(c[0], c[1].subst(lambda a: P.of(0) if a in z else None), 0) if z else c
        if c[0] == "and":
            return band(*[simp(x) for x in c[1:]])
        if c[0] == "or":
            return bor(*[simp(x) for x in c[1:]])
        if c[0] == "not":
            return bnot(simp(c[1]))
    return c


def truth(c):
    return c if c is True or c is False else SB(c)


class Quant:
    """all or any over an array: decided when provable, else forked as an unknown fact."""

    def __init__(self, kind, dims, f):
        self.kind, self.dims, self.f = kind, dims, f

    def holds_generic(self):
        """Provably true of every element?"""
        c = ctx()
        n = len(c.pc)
        c.solver.push()
        try:
            for t in itertools.product(*[indices(d) for d in self.dims]):
                b = self.f(t)
                if not valid(b if self.kind == "all" else bnot(b)):
                    return False
            return True
        finally:
            c.solver.pop()
            del c.pc[n:]

    def __bool__(self):
        if all(isinstance(d, int) for d in self.dims):
            l = [self.f(t) for t in itertools.product(*[range(d) for d in self.dims])]
            return ctx().branch(band(*l) if self.kind == "all" else bor(*l))
        c = ctx()
        for q, v in c.facts:
            if q is self:
                return v
        if self.holds_generic():
            return self.kind == "all"
        v = c.choose(2, "quantifier") == 0
        c.facts.append((self, v))
        return v

    def item(self):
        return self

    # combinations stay symbolic
    def __and__(self, o):
        return QAnd([self]) & o

    def __rand__(self, o):
        return QAnd([self]) & o

    def __invert__(self):
        return Quant("any" if self.kind == "all" else "all", self.dims, lambda t: bnot(self.f(t)))


class QAnd:
    def __init__(self, l):
        self.l = l

    def __and__(self, o):
        return QAnd(self.l + (o.l if isinstance(o, QAnd) else [o]))

    __rand__ = __and__

    def __bool__(self):
        return all(bool(x) for x in self.l)


def valid(b):
    """Does the path condition, with what is known of the arrays, imply b?"""
    if b is True or b is False:
        return b
    c = ctx()
    n = len(c.pc)
    ax = axioms_for([b] + c.pc)
    c.solver.push()
    try:
        for x in ax:
            c.assume(x)
        if c.valid(b):
            return True
        from .sums import Zero
        z = Zero(c, axioms_for)
        if b[0] == "==":
            return z.zero(b[1])
        return False
    except Infeasible:
        return True
    finally:
        c.solver.pop()
        del c.pc[n:]


AXIOMS = {}   # array name -> f(atom) -> list of conditions


def axioms_for(bs):
    out, seen, todo = [], set(), [p for b in bs for p in (term.bool_polys(b) if not isinstance(b, P) else [b])]
    while todo:
        p = todo.pop()
        for a in p.all_atoms():
            if a in seen or any(v.name[0] == "#" for v in vars_of(a)):
                continue
            seen.add(a)
            if a.kind == "fn" and a.name in AXIOMS:
                l = [x for x in AXIOMS[a.name](a) if x is not True]
                out += l
                todo += [q for b in l for q in term.bool_polys(b)]
    return out


def vars_of(a):
    from .sums import _vars
    return _vars(a)


# ------------------------------------------------------------------ arrays

class Buffer:
    def __init__(self, dims, fn, dtype="f", name=None):
        if dtype == "f4":
            raise Unsupported("an array of single precision")
        self.dims, self.fn, self.dtype, self.name, self.version = tuple(dims), fn, dtype, name, 0
        self.frozen = False

    def write(self, fn):
        if self.frozen:
            raise Unsupported(f"write to {self.name}")
        self.fn = fn
        self.version += 1


class DType:
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, DType) and self.k == o.k or o in (float, bool, int) and {float: "f", bool: "b", int: "i"}[o] == self.k[0]

    def __hash__(self):
        return hash(self.k)

    def __call__(self, x=0):
        return asA(x).astype(self)

    def __repr__(self):
        return self.k


def dt(x):
    if x is None:
        return "f"
    if isinstance(x, DType):
        return x.k
    if isinstance(x, str):
        return {"float64": "f", "double": "f", "float": "f", "int": "i", "uint32": "u4", "uint8": "u1", "bool": "b", "f": "f", "i": "i", "float32": "f4", "f4": "f4", "single": "f4"}[x]
    return {float: "f", int: "i", bool: "b", sfloat: "f", sint: "i"}[x]


def num(v):
    if isinstance(v, P):
        return v
    if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
        return P.of(v)
    if isinstance(v, (bool, tuple)):
        return ind(v)
    if isinstance(v, SB):
        return ind(v.c)
    if isinstance(v, Dim):
        return size(v)
    raise Unsupported(f"not a number: {v!r}")


def cond(v):
    if isinstance(v, (bool, tuple)):
        return v
    if isinstance(v, SB):
        return v.c
    v = num(v)
    return bnot(cmp("==", v, 0))


class A:
    """A view of a buffer.  spec[k] says where the k-th base index comes from:
    ("fix", i) or ("ax", view axis, start, step)."""
    __array_priority__ = 1000

    def __init__(self, buf, dims=None, spec=None, ro=False):
        self.buf = buf
        self.dims = tuple(dims if dims is not None else buf.dims)
        self.spec = spec if spec is not None else [("ax", k, 0, 1) for k in range(len(buf.dims))]
        self.ro = ro

    # reading
    def reader(self):
        """The current contents, immune to later writes."""
        fn, spec = self.buf.fn, self.spec

        def get(idx):
            out = []
            for s in spec:
                if s[0] == "fix":
                    out.append(s[1])
                else:
                    i = idx[s[1]]
                    if s[2] or s[3] != 1:
                        i = s[2] + s[3] * i
                    out.append(i)
            return fn(tuple(out))
        return get

    def at(self, *idx):
        return self.reader()(idx)

    def item(self):
        if self.dims and any(d != 1 for d in self.dims):
            raise ValueError("can only convert an array of size 1")
        return self.reader()((0,) * len(self.dims))

    @property
    def dtype(self):
        return DType(self.buf.dtype)

    @property
    def shape(self):
        return self.dims

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        r = P.of(1)
        for d in self.dims:
            r = r * size(d)
        return mkdim(r)

    @property
    def flat(self):
        return self.ravel()

    def __len__(self):
        d = self.dims[0]
        if isinstance(d, int):
            return d
        raise Unsupported("len of a symbolic axis")

    def __format__(self, spec):
        if FORMAT[0] is not None and not self.dims:
            return FORMAT[0](self, spec)
        return object.__format__(self, spec)

    def __iter__(self):
        if not self.dims:
            raise TypeError("iteration over a 0-d array")
        if not isinstance(self.dims[0], int):
            raise Unsupported("iteration over a symbolic axis")
        return iter([self[i] for i in range(self.dims[0])])

    def __bool__(self):
        v = self.item()
        if isinstance(v, P):
            v = bnot(cmp("==", v, 0))
        v = simp(v)
        return v if isinstance(v, bool) else ctx().branch(v)

    def __index__(self):
        c = num(self.item()).const()
        if isinstance(c, int):
            return c
        raise Unsupported("symbolic position")

    def __repr__(self):
        return f"<array {self.dims} {self.buf.name or ''}>"

    # views
    def _basic(self, key):
        """view spec after basic indexing; key: list per view axis of int | slice, or None entries for new axes"""
        dims, sub, ax = [], [], 0
        for k in key:
            if k is None:
                dims.append(1)
                continue
            d = self.dims[ax]
            if isinstance(k, slice):
                if k == slice(None):
                    sub.append(("ax", len(dims), 0, 1))
                    dims.append(d)
                else:
                    if not isinstance(d, int):
                        raise Unsupported("slice of a symbolic axis")
                    r = range(*slice(*[None if x is None else x.__index__() for x in (k.start, k.stop, k.step)]).indices(d))
                    sub.append(("ax", len(dims), r.start, r.step))
                    dims.append(len(r))
            else:
                i = k
                if isinstance(d, int):
                    i = i.__index__() if not isinstance(i, P) else i
                    if isinstance(i, int):
                        if not -d <= i < d:
                            raise IndexError("index out of bounds")
                        i = i % d
                elif isinstance(i, int):
                    if i < 0:
                        raise Unsupported("negative position on a symbolic axis")
                    i = P.of(i)
                sub.append(("fix", i))
            ax += 1
        spec = []
        for s in self.spec:
            if s[0] == "fix":
                spec.append(s)
            else:
                t = sub[s[1]]
                if t[0] == "fix":
                    i = t[1]
                    if s[2] or s[3] != 1:
                        i = s[2] + s[3] * i
                    spec.append(("fix", i))
                elif t[2] == 0 and t[3] == 1:
                    spec.append(("ax", t[1], s[2], s[3]))
                else:
                    spec.append(("ax", t[1], s[2] + s[3] * t[2], s[3] * t[3]))
        return A(self.buf, dims, spec, self.ro)

    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = [unlist(k) for k in key]
        n = sum(1 if not (isinstance(k, A) and k.buf.dtype == "b" and k.ndim > 1) else k.ndim for k in key if k is not None and k is not Ellipsis)
        if n > self.ndim:
            raise IndexError("too many indices for array")
        fill = [slice(None)] * (self.ndim - n)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + fill + key[i + 1:]
        else:
            key = key + fill
        return key

    def __getitem__(self, key):
        key = self._key(key)
        if not any(isinstance(k, A) for k in key):
            return self._basic(key)
        mask = [k for k in key if isinstance(k, A) and k.buf.dtype == "b"]
        if mask:
            if len(mask) != 1:
                raise Unsupported("several masks")
            m = mask[0]
            pos = [i for i, k in enumerate(key) if k is m][0]
            if any(k != slice(None) for i, k in enumerate(key) if i != pos):
                raise Unsupported("mask with other indices")
            return Filter(self, m, pos)
        # advanced: basic parts first
        v = self._basic([slice(None) if isinstance(k, A) else k for k in key])
        axes, pos = [], 0
        for k in key:
            if isinstance(k, A):
                axes.append((pos, k))
                pos += 1
            elif k is None or isinstance(k, slice):
                pos += 1
        return take(v, axes)

    def __setitem__(self, key, val):
        key = self._key(key)
        if not any(isinstance(k, A) for k in key):
            v = self._basic(key)
            v.assign(val)
            return
        mask = [k for k in key if isinstance(k, A) and k.buf.dtype == "b"]
        val = asA(val)
        if mask:
            m = mask[0]
            if len(mask) != 1 or m.ndim != 1 and len(key) != 1 or val.ndim:
                raise Unsupported("write through a mask")
            pos = [i for i, k in enumerate(key) if k is m][0]
            if any(k != slice(None) for i, k in enumerate(key) if i != pos):
                raise Unsupported("mask with other indices")
            new, old, mr = num(val.item()), self.reader(), m.reader()

            def f(idx):
                c = cond(mr(idx[pos:pos + m.ndim]))
                return old(idx) + ind(c) * (new - old(idx))
            self.assign(A(Buffer(self.dims, f, self.buf.dtype)))
            return
        if all(isinstance(k, A) for k in key) and len(key) == 1 or isinstance(key[0], A) and all(k == slice(None) for k in key[1:]):
            scatter_set(self, key[0], val)
            return
        raise Unsupported("write through index arrays")

    def assign(self, val):
        """self[...] = val"""
        if self.ro:
            raise Unsupported("write through a reshaped array")
        val = asA(val)
        rd = bcast(val, self.dims)
        old, spec, isb = self.buf.fn, self.spec, self.buf.dtype == "b"
        nv = len(self.dims)
        if nv == len(spec) and all(s == ("ax", k, 0, 1) for k, s in enumerate(spec)) and all(map(same_dim, self.dims, self.buf.dims)):
            self.buf.write(lambda idx: cond(rd(idx)) if isb else num(rd(idx)))
            return
        dims = self.dims

        def f(idx):
            c, vi = True, [0] * nv
            for s, i in zip(spec, idx):
                if s[0] == "fix":
                    c = band(c, idx_eq(i, s[1]))
                elif s[2] == 0 and s[3] == 1 and (not isinstance(dims[s[1]], int) or isinstance(i, P)):
                    vi[s[1]] = i
                else:
                    if not isinstance(i, int):
                        raise Unsupported("symbolic position in a partial write")
                    q, r = divmod(i - s[2], s[3])
                    if r or not 0 <= q < dims[s[1]]:
                        return old(idx)
                    vi[s[1]] = q
                if c is False:
                    return old(idx)
            new = rd(tuple(vi))
            if c is True:
                return cond(new) if isb else num(new)
            if isb:
                return bor(band(c, cond(new)), band(bnot(c), old(idx)))
            return old(idx) + ind(c) * (num(new) - num(old(idx)))
        self.buf.write(f)

    # arithmetic
    def _bin(self, o, f, r=False, dtype=None):
        if isinstance(o, (Sp, Quant, Filter)):
            return NotImplemented
        o = asA(o)
        a, b = (o, self) if r else (self, o)
        return elementwise(f, a, b, dtype=dtype)

    def __add__(self, o):
        return self._bin(o, lambda a, b: num(a) + num(b))

    def __radd__(self, o):
        return self._bin(o, lambda a, b: num(a) + num(b), True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: num(a) - num(b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: num(a) - num(b), True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: num(a) * num(b))

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: num(a) * num(b), True)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: num(a) / num(b), dtype="f")

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: num(a) / num(b), True, dtype="f")

    def __pow__(self, n):
        return power(self, n)

    def __neg__(self):
        return elementwise(lambda a: -num(a), self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return np_abs(self)

    def __invert__(self):
        if self.buf.dtype != "b":
            raise Unsupported("bitwise operation on numbers")
        return elementwise(lambda a: bnot(cond(a)), self, dtype="b")

    def __and__(self, o):
        return self._bin(o, lambda a, b: band(cond(a), cond(b)), dtype="b")

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: bor(cond(a), cond(b)), dtype="b")

    __ror__ = __or__

    def _c(self, op, o):
        return self._bin(o, lambda a, b: cmp(op, num(a), num(b)), dtype="b")

    def __lt__(self, o):
        return self._c("<", o)

    def __le__(self, o):
        return self._c("<=", o)

    def __gt__(self, o):
        return self._c(">", o)

    def __ge__(self, o):
        return self._c(">=", o)

    def __eq__(self, o):
        if o is None:
            return False
        return self._c("==", o)

    def __ne__(self, o):
        if o is None:
            return True
        return self._c("!=", o)

    __hash__ = None

    def _inplace(self, o, op):
        if self.buf.dtype in ("i", "u4") and asA(o).buf.dtype == "f":
            raise TypeError("cannot cast the result of an in-place operation to integers")
        self.assign(op(self, o))
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._inplace(o, lambda a, b: a / b)

    def __matmul__(self, o):
        return np_dot(self, o)

    # methods
    def copy(self, order="C"):
        plain_order(order)
        return A(Buffer(self.dims, self.reader(), self.buf.dtype, self.buf.name))

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t, copy=True):
        k = dt(t)
        f = self.reader()
        if k == "f4":
            # rounding to single precision is not neglected: nothing is known about its result, but for small integers
            def single(v):
                v = num(v)
                return v if v.const() is not None and v.is_int() and abs(v.const()) < 1 << 24 or v.is_int() and not v.all_atoms() else app("single", v)
            return A(Buffer(self.dims, lambda i: single(f(i)), "f"))
        if k == "b":
            return A(Buffer(self.dims, lambda i: cond(f(i)), "b"))
        if k in ("i", "u4", "u1") and self.buf.dtype == "f":
            raise Unsupported("rounding to integers")
        return A(Buffer(self.dims, lambda i: num(f(i)), k))

    def fill(self, v):
        self.assign(v)

    def clip(self, min=None, max=None, out=None):
        return np_clip(self, min, max, out)

    def sum(self, axis=None, keepdims=False):
        return np_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        return np_mean(self, axis, keepdims)

    def dot(self, o):
        return np_dot(self, o)

    def all(self, axis=None, keepdims=False):
        return np_all(self, axis, keepdims)

    def any(self, axis=None, keepdims=False):
        return np_any(self, axis, keepdims)

    def max(self, axis=None, keepdims=False):
        return np_max(self, axis, keepdims)

    def min(self, axis=None, keepdims=False):
        return np_min(self, axis, keepdims)

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        axes = list(axes[0] if len(axes) == 1 and isinstance(axes[0], (tuple, list)) else axes) or list(range(self.ndim))[::-1]
        dims = [self.dims[k] for k in axes]
        inv = {k: i for i, k in enumerate(axes)}
        return A(self.buf, dims, [s if s[0] == "fix" else ("ax", inv[s[1]], s[2], s[3]) for s in self.spec], self.ro)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def flatten(self, order="C"):
        plain_order(order)
        r = reshape(self, (-1,))
        r.ro = False
        r.view_of = None
        r.buf = Buffer(r.dims, r.buf.fn, self.buf.dtype)
        return r

    def ravel(self, order="C"):
        plain_order(order)
        return reshape(self, (-1,))

    def squeeze(self, axis=None):
        return np_squeeze(self, axis)

    def swapaxes(self, i, j):
        return np_swapaxes(self, i, j)

    def repeat(self, repeats, axis=None):
        return np_repeat(self, repeats, axis)

    def take(self, idx, axis=None):
        return np_take(self, idx, axis)

    def tolist(self):
        return [x.tolist() if x.ndim else x for x in self]

    def setflags(self, write=None):
        pass

    def numpy(self):
        return DETACH[0](self)

    def detach(self):
        return DETACH[0](self)


class Filter:
    """Rows of an array selected by a mask: kept symbolic."""

    def __init__(self, a, m, axis):
        self.a, self.m, self.axis = a, m, axis
        self.reader_a, self.reader_m = a.reader(), m.reader()


def unlist(k):
    if isinstance(k, list):
        return asA(k)
    if isinstance(k, np_matrix):
        return k
    if isinstance(k, A) and k.ndim == 0:
        v = num(k.item())
        return v.const() if v.const() is not None else v
    if isinstance(k, (SB, bool)):
        raise Unsupported("boolean index")
    return k


def new(dims, fn, dtype="f", name=None):
    return A(Buffer(tuple(asdim(d) for d in dims), fn, dtype, name))


def scalar(v, dtype=None):
    if dtype is None:
        dtype = "b" if isinstance(v, (bool, tuple)) else "f"
    v = v if dtype == "b" else num(v)
    return A(Buffer((), lambda i: v, dtype))


def symbol(name, *dims, dtype="f"):
    """An arbitrary array."""
    dims = tuple(dims)

    def f(idx):
        args = []

        def flat(i):
            if isinstance(i, tuple):
                if i[0] == "c":
                    args.append(P.of(i[1]))
                    flat(i[2])
                else:
                    for x in i[1:]:
                        flat(x)
            else:
                args.append(P.of(i))
        for i in idx:
            flat(i)
        if dtype == "b":
            return ("b", atom_of(app(name, *args, sort="B")))
        return app(name, *args, sort="I" if dtype[0] in "iu" else "R")
    return A(Buffer(dims, f, dtype, name))


def asA(x, dtype=None):
    if isinstance(x, A):
        return x
    if isinstance(x, (int, float, Fraction)):
        if isinstance(x, bool):
            return scalar(x, "b")
        return scalar(P.of(x), "i" if isinstance(x, int) else "f")
    if isinstance(x, P):
        return scalar(x, "i" if x.is_int() else "f")
    if isinstance(x, SB):
        return scalar(x.c, "b")
    if isinstance(x, Dim):
        return scalar(size(x), "i")
    if isinstance(x, (list, tuple)):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            raise Unsupported("index as a value")
        items = [asA(v) for v in x]
        if not items:
            return new((0,), lambda i: P.of(0))
        return np_stack(items)
    if isinstance(x, Sp):
        raise Unsupported("sparse matrix as an array")
    if hasattr(x, "as_array"):
        return x.as_array()
    raise Unsupported(f"array of {type(x).__name__}")


def bdims(a, b):
    out = []
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1 or same_dim(x, y):
            out.append(x)
        elif isinstance(x, Opq) and x == y:
            out.append(y)
        elif isinstance(y, Opq) and x == y:
            out.append(x)
        elif (isinstance(x, Dim) or isinstance(y, Dim)) and valid(cmp("==", size(x), size(y))):
            raise Unsupported("axes of equal length but different structure")
        else:
            raise ValueError(f"operands could not be broadcast together {a} {b}")
    return tuple(out)


def bcast(a, dims):
    """Reader of a broadcast to dims."""
    n = len(dims)
    r = a.reader()
    off = n - a.ndim
    if off < 0:
        if all(isinstance(d, int) and d == 1 for d in a.dims[:-off]):
            k = -off
            return lambda idx: r((0,) * k + tuple(0 if isinstance(d, int) and d == 1 else i for i, d in zip(idx, a.dims[k:])))
        raise ValueError("could not broadcast")
    b = bdims(a.dims, dims)
    for x, y in zip(b, dims):
        if not same_dim(x, y) and not (isinstance(y, Dim) and y == x):
            raise ValueError("could not broadcast")
    ad = a.dims
    return lambda idx: r(tuple(0 if isinstance(d, int) and d == 1 else i for i, d in zip(idx[off:], ad)))


def elementwise(f, *arrs, dtype=None):
    arrs = [asA(x) for x in arrs]
    dims = ()
    for x in arrs:
        dims = bdims(dims, x.dims)
    rs = [bcast(x, dims) for x in arrs]
    if dtype is None:
        ks = [x.buf.dtype for x in arrs]
        dtype = "f" if "f" in ks else ("i" if all(k in ("i", "b") for k in ks) else "u4" if all(k == "u4" for k in ks) else "i")
    cache = {}

    def g(idx):
        if idx not in cache:
            cache[idx] = f(*[r(idx) for r in rs])
        return cache[idx]
    return new(dims, g, dtype)


def take(v, axes):
    """v indexed by integer arrays on the given (adjacent or single) axes."""
    dims = ()
    for _, k in axes:
        dims = bdims(dims, k.dims)
    pos = [p for p, _ in axes]
    rs = [bcast(k, dims) for _, k in axes]
    if pos != list(range(pos[0], pos[0] + len(pos))):
        first = 0
    else:
        first = pos[0]
    rest = [d for i, d in enumerate(v.dims) if i not in pos]
    out = rest[:first] + list(dims) + rest[first:]
    r = v.reader()
    nd = len(dims)
    vd = v.dims

    def g(idx):
        sub = idx[first:first + nd]
        other = list(idx[:first] + idx[first + nd:])
        full = []
        for i in range(len(vd)):
            if i in pos:
                x = num(rs[pos.index(i)](sub))
                c = x.const()
                if isinstance(vd[i], int):
                    if isinstance(c, int):
                        if not -vd[i] <= c < vd[i]:
                            raise IndexError("index out of bounds")
                        full.append(c % vd[i])
                        continue
                    raise Unsupported("symbolic position on a concrete axis")
                full.append(from_number(vd[i], x))
            else:
                full.append(other.pop(0))
        return r(tuple(full))
    return new(out, g, v.buf.dtype)


def from_number(d, x):
    if isinstance(d, B):
        need("index in range", band(cmp("<=", 0, x), cmp("<", x, d.base.size)))
        return x
    raise Unsupported("number as a position on a structured axis")


NEED = []   # collected range obligations (condition, path condition)


def need(what, b):
    if b is True:
        return
    # bound variables of a sum: assume they range over their index set
    NEED.append((what, b))


def scatter_set(a, idx, val):
    """a[idx] = val with an index array: each position written receives one of the values
    written there (numpy: the last one)."""
    if idx.ndim != 1:
        raise Unsupported("write through an index matrix")
    d = idx.dims[0]
    if isinstance(d, int):
        ir = idx.reader()
        vr = bcast(val, (d,) + a.dims[1:])
        old = a.reader()
        ks = [num(ir((i,))) for i in range(d)]

        def f(t):
            r = old(t)
            for i, k in enumerate(ks):
                c = cmp("==", k, idx_num(t[0]))
                n = vr((i,) + t[1:])
                if c is True:
                    r = n
                elif c is not False:
                    r = num(r) + ind(c) * (num(n) - num(r))
            return r
        a.assign(new(a.dims, f, a.buf.dtype))
        return
    flat = leaves(d)
    name = f"last:{idx.buf.name or id(idx.buf)}"
    ir, vr, old = idx.reader(), bcast(val, (d,) + a.dims[1:]), a.reader()
    parts = flat

    def witness(e):
        w = app(name, e, sort="I")
        k = app(name + ":part", e, sort="I")
        return w, k

    def ax(at):
        e = at.args[0]
        w, k = witness(e)
        return [band(cmp("<=", 0, w), cmp("<=", 0, k), cmp("<", k, len(parts))),
                cmp("==", sum((delta(k, j) * num(ir((mk(w),))) for j, (mk, _) in enumerate(parts)), P.of(0)), e)]
    AXIOMS[name] = AXIOMS[name + ":part"] = ax

    def f(t):
        e = idx_num(t[0])
        w, k = witness(e)
        r = P.of(0)
        for j, (mk, _) in enumerate(parts):
            r = r + delta(k, j) * num(vr((mk(w),) + t[1:]))
        return r
    if not getattr(idx, "onto", False):
        raise Unsupported("write through an index array that may not cover the axis")
    a.assign(new(a.dims, f, a.buf.dtype))


def leaves(d):
    """[(index maker, base)] of an axis made of concatenated base axes."""
    if isinstance(d, B):
        return [(lambda x: x, d)]
    if isinstance(d, Cat):
        return [((lambda x, i=i, mk=mk: ("c", i, mk(x))), b) for i, p in enumerate(d.parts) for mk, b in leaves(p)]
    raise Unsupported("structured axis")


# ------------------------------------------------------------------ numpy functions

_LETKEY = {}
FORMAT = [None]   # printing of a symbolic number: f(value, format)


def let(a, limit=3, small=False):
    """The array under an abbreviation: its elements are opaque, with their definition at hand."""
    if not all(isinstance(d, (int, B)) for d in a.dims) or not small and not any(isinstance(d, B) for d in a.dims):
        return a
    r = a.reader()
    canon = [list(range(d)) if isinstance(d, int) else [var(f"@{k}:{d.base.name}", "I")] for k, d in enumerate(a.dims)]
    if max((d for d in a.dims if isinstance(d, int)), default=1) > 8:
        return a
    vals = {t: num(r(t)) for t in itertools.product(*canon)}
    if max(len(v.m) for v in vals.values()) <= limit:
        return a
    key = (tuple(dkey(d) for d in a.dims), tuple(vals[t] for t in sorted(vals, key=repr)))
    name = _LETKEY.get(key)
    if name is None:
        name = _LETKEY[key] = f"let{len(_LETKEY)}"
        lv = 1 + max((LETS[x.name][0] for v in vals.values() for x in v.all_atoms() if x.kind == "fn" and x.name in LETS), default=0)
        dims = a.dims

        def define(args):
            t = tuple(x.const() if isinstance(d, int) else canon[k][0] for k, (x, d) in enumerate(zip(args, dims)))
            m = {atom_of(canon[k][0]): args[k] for k, d in enumerate(dims) if not isinstance(d, int)}
            return rename(vals[t], m)
        LETS[name] = (lv, define)
    return new(a.dims, lambda i: app(name, *i), a.buf.dtype)


def np_array(x, dtype=None, copy=True):
    if isinstance(x, A):
        r = x.copy()
    else:
        r = asA(x).copy()
    return r if dtype is None else r.astype(dtype)


def np_asarray(x, dtype=None):
    a = asA(x)
    return a if dtype is None or DType(a.buf.dtype) == dtype or dt(dtype) == a.buf.dtype else a.astype(dtype)


def shp(s):
    if isinstance(s, (tuple, list)):
        return tuple(asdim(d) for d in s)
    return (asdim(s),)


def np_full(shape, v, dtype=None):
    v = asA(v)
    k = v.buf.dtype if dtype is None else dt(dtype)
    x = v.item()
    x = cond(x) if k == "b" else num(x)
    return new(shp(shape), lambda i: x, k)


def np_zeros(shape, dtype=None):
    return np_full(shape, 0, dtype or float)


def np_ones(shape, dtype=None):
    return np_full(shape, 1, dtype or float)


def np_empty(shape, dtype=None):
    """Unspecified contents."""
    return symbol(f"uninitialised{next(_uninit)}", *shp(shape), dtype=dt(dtype))


_uninit = itertools.count()


def np_eye(n, M=None, dtype=None):
    n = asdim(n)
    return new((n, n if M is None else asdim(M)), lambda i: ind(idx_eq(i[0], i[1])))


def np_diag(v, k=0):
    v = asA(v)
    n = v.dims[0]
    if k or v.ndim > 2 or not isinstance(n, int):
        raise Unsupported("diag")
    if v.ndim == 2:
        return np_stack([v[i, i] for i in range(n)])
    zero = scalar(0, v.buf.dtype)
    return np_stack([np_stack([v[i] if i == j else zero for j in range(n)]) for i in range(n)])


def np_arange(*a, dtype=None):
    if len(a) == 2 and isinstance(a[0], int) and a[0] == 0:
        a = a[1:]
    if len(a) == 1:
        n = asdim(a[0])
        x = new((n,), lambda i: idx_num(i[0]), "i")
        return x if dtype is None else x.astype(dtype)
    if all(isinstance(x, int) for x in a):
        return asA(list(range(*a)))
    raise Unsupported("arange")


def np_tile(a, reps):
    a = asA(a)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    n = max(len(reps), a.ndim)
    dims = (1,) * (n - a.ndim) + a.dims
    reps = [1] * (n - len(reps)) + [r for r in reps]
    r0 = bcast(a, dims)
    out = []
    for d, k in zip(dims, reps):
        if isinstance(k, int) and k == 1:
            out.append(d)
        elif isinstance(d, int) and d == 1:
            out.append(asdim(k))
        elif isinstance(d, int) and isinstance(k, int):
            out.append(d * k)
        elif isinstance(k, int):
            out.append(Cat([d] * k))
        else:
            raise Unsupported("tile")

    def f(idx):
        sub = []
        for i, d, k in zip(idx, dims, reps):
            if isinstance(k, int) and k == 1:
                sub.append(i)
            elif isinstance(d, int):
                sub.append(0 if d == 1 else i % d)
            else:
                sub.append(i[2])
        return r0(tuple(sub))
    return new(out, f, a.buf.dtype)


def np_repeat(a, repeats, axis=None):
    a = asA(a)
    if isinstance(repeats, A):
        if repeats.ndim:
            raise Unsupported("repeat counts per element")
        repeats = repeats.item()
    if axis is None:
        a, axis = a.flatten(), 0
    axis = axis % a.ndim
    d = a.dims[axis]
    ix = lambda k: (slice(None),) * axis + (k,)
    k = repeats if isinstance(repeats, int) else asdim(repeats)
    if isinstance(d, int) and not isinstance(k, int):
        rest = a.dims[:axis]
        return np_concatenate([np_broadcast_to(a[ix(slice(j, j + 1))], rest + (k,) + a.dims[axis + 1:]) for j in range(d)], axis)
    if isinstance(d, int):
        return np_concatenate([a[ix(slice(j, j + 1))] for j in range(d) for _ in range(k)], axis)
    if isinstance(k, int):
        e = np_tile(a[ix(slice(None)) + (None,)], (1,) * (axis + 1) + (k,) + (1,) * (a.ndim - axis - 1))
        if a.ndim == 1:
            return e.flatten()
        if axis == 0:
            return reshape(e, (-1,) + tuple(a.dims[1:])).copy()
    raise Unsupported("repeat")


def np_broadcast_to(a, shape):
    a = asA(a)
    dims = tuple(asdim(d) for d in (shape if isinstance(shape, (tuple, list)) else (shape,)))
    r = bcast(a, dims)
    x = new(dims, r, a.buf.dtype)
    x.ro = True
    return x


def np_swapaxes(a, i, j):
    a = asA(a)
    axes = list(range(a.ndim))
    axes[i], axes[j] = axes[j], axes[i]
    return a.transpose(*axes)


def np_moveaxis(a, i, j):
    a = asA(a)
    axes = list(range(a.ndim))
    x = axes.pop(i)
    axes.insert(j % a.ndim, x)
    return a.transpose(*axes)


def np_take(a, idx, axis=None):
    a = asA(a)
    if axis is None:
        a, axis = a.flatten(), 0
    return a[(slice(None),) * (axis % a.ndim) + (idx,)]


def np_sign(a):
    return elementwise(lambda x: ind(cmp("<", P.of(0), num(x))) - ind(cmp("<", num(x), P.of(0))), a)


def common_dtype(arrs):
    ks = {a.buf.dtype for a in arrs}
    return ks.pop() if len(ks) == 1 else ("f" if "f" in ks else "i")


def np_concatenate(arrs, axis=0):
    arrs = [asA(a) for a in arrs]
    n = arrs[0].ndim
    axis = axis % n
    dims = list(arrs[0].dims)
    for a in arrs[1:]:
        for k in range(n):
            if k != axis and not same_dim(a.dims[k], dims[k]):
                if not a.dims[k] == dims[k]:
                    raise ValueError("all the input array dimensions must match")
    ds = [a.dims[axis] for a in arrs]
    rs = [a.reader() for a in arrs]
    dtype = common_dtype(arrs)
    cv = cond if dtype == "b" else num
    if all(isinstance(d, int) for d in ds):
        dims[axis] = sum(ds)

        def f(idx):
            i = idx[axis]
            if not isinstance(i, int):
                raise Unsupported("symbolic position")
            for d, r in zip(ds, rs):
                if i < d:
                    return cv(r(idx[:axis] + (i,) + idx[axis + 1:]))
                i -= d
        return new(dims, f, dtype)
    dims[axis] = Cat(ds)
    return new(dims, lambda idx: cv(rs[idx[axis][1]](idx[:axis] + (idx[axis][2],) + idx[axis + 1:])), dtype)


def np_stack(arrs, axis=0):
    arrs = [asA(a) for a in arrs]
    n = arrs[0].ndim + 1
    axis = axis % n
    dims = arrs[0].dims
    for a in arrs[1:]:
        if a.ndim != len(dims) or not all(same_dim(x, y) or x == y for x, y in zip(a.dims, dims)):
            raise ValueError("all input arrays must have the same shape")
    rs = [a.reader() for a in arrs]
    dtype = common_dtype(arrs)
    cv = cond if dtype == "b" else num

    def f(idx):
        i = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        if isinstance(i, int):
            return cv(rs[i](rest))
        raise Unsupported("symbolic position")
    return new(dims[:axis] + (len(arrs),) + dims[axis:], f, dtype)


def np_column_stack(arrs):
    arrs = [asA(a) for a in arrs]
    return np_concatenate([a if a.ndim == 2 else a[:, None] for a in arrs], axis=1)


def np_vstack(arrs):
    arrs = [asA(a) for a in arrs]
    return np_concatenate([a if a.ndim >= 2 else a[None] for a in arrs], axis=0)


def np_hstack(arrs):
    arrs = [asA(a) for a in arrs]
    return np_concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def np_dstack(arrs):
    arrs = [asA(a) for a in arrs]
    arrs = [a if a.ndim == 3 else a[:, :, None] if a.ndim == 2 else a[None, :, None] for a in arrs]
    return np_concatenate(arrs, axis=2)


def naxes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    ax = [axis] if isinstance(axis, int) else list(axis)
    for k in ax:
        if not -a.ndim <= k < a.ndim:
            raise ValueError("axis out of bounds")
    return sorted(k % a.ndim for k in ax)


def reduce_(a, axis, f, keepdims=False, dtype="f"):
    """f(list of (dim, setter)) style reduction: calls f(dims, g) with g(reduced index tuple)."""
    ax = naxes(a, axis)
    r = a.reader()
    dims = [d for k, d in enumerate(a.dims) if k not in ax]
    red = [a.dims[k] for k in ax]

    def at(idx):
        if keepdims:
            idx = tuple(i for k, i in enumerate(idx) if k not in ax)

        def g(t):
            full, i, j = [], 0, 0
            for k in range(a.ndim):
                if k in ax:
                    full.append(t[j])
                    j += 1
                else:
                    full.append(idx[i])
                    i += 1
            return r(tuple(full))
        return f(red, g)
    if keepdims:
        dims = [1 if k in ax else d for k, d in enumerate(a.dims)]
    return new(dims, at, dtype)


def np_sum(a, axis=None, keepdims=False, dtype=None):
    if isinstance(a, Sp):
        return a.sum(axis)
    a = asA(a)

    def f(dims, g):
        def rec(k, pre):
            if k == len(dims):
                return num(g(pre))
            return sum_dim(dims[k], lambda x: rec(k + 1, pre + (x,)))
        return rec(0, ())
    return reduce_(a, axis, f, keepdims, "f" if a.buf.dtype == "f" else "i")


def np_mean(a, axis=None, keepdims=False):
    if keepdims:
        return np_sum(a, axis, True) / np_sum(np_ones(asA(a).dims), axis, True)
    a = asA(a)
    n = P.of(1)
    for k in naxes(a, axis):
        n = n * size(a.dims[k])
    return np_sum(a, axis) / n


def np_all(a, axis=None, keepdims=False):
    r = quant("all", a, axis)
    return np_expand_dims(r, axis) if keepdims and axis is not None else r


def np_any(a, axis=None, keepdims=False):
    r = quant("any", a, axis)
    return np_expand_dims(r, axis) if keepdims and axis is not None else r


def quant(kind, a, axis):
    if isinstance(a, (Quant, QAnd, SB, bool)):
        return a
    if isinstance(a, SpBool):
        return a.quant(kind)
    a = asA(a)
    if axis is not None:
        def f(dims, g):
            if not all(isinstance(d, int) for d in dims):
                raise Unsupported("all/any along a symbolic axis")
            l = [cond(g(t)) for t in itertools.product(*[range(d) for d in dims])]
            return band(*l) if kind == "all" else bor(*l)
        return reduce_(a, axis, f, dtype="b")
    r = a.reader()
    if all(isinstance(d, int) for d in a.dims):
        l = [cond(r(t)) for t in itertools.product(*[range(d) for d in a.dims])]
        return truth(band(*l) if kind == "all" else bor(*l))
    return Quant(kind, a.dims, lambda t: cond(r(t)))


def np_max(a, axis=None, keepdims=False):
    if keepdims and axis is not None:
        return np_expand_dims(np_max(a, axis), axis)
    a = asA(a)
    if axis is None and getattr(a, "below", None) is not None:
        return a.below - 1
    return extremum(a, axis, "max")


def np_min(a, axis=None, keepdims=False):
    if keepdims and axis is not None:
        return np_expand_dims(np_min(a, axis), axis)
    return extremum(asA(a), axis, "min")


EXTREMA = {}


def extremum(a, axis, which):
    def f(dims, g):
        if all(isinstance(d, int) for d in dims):
            l = [num(g(t)) for t in itertools.product(*[range(d) for d in dims])]
            r = l[0]
            for x in l[1:]:
                r = vmax(r, x) if which == "max" else vmin(r, x)
            return r
        if len(dims) == 1 and isinstance(dims[0], B):
            # an opaque number, the same for the same values; obligations use that no value is beyond it
            key = (which, dkey(dims[0]), num(g((var(f"@0:{dims[0].base.name}", "I"),))))
            return app("extremum", P.of(EXTREMA.setdefault(key, len(EXTREMA))))
        raise Unsupported("extremum along a symbolic axis")
    return reduce_(a, axis, f)


def vmax(a, b):
    a, b = num(a), num(b)
    return b + ind(cmp("<", b, a)) * (a - b)


def vmin(a, b):
    a, b = num(a), num(b)
    return a - ind(cmp("<", b, a)) * (a - b)


def np_abs(a):
    return elementwise(lambda x: num(x) * (1 - 2 * ind(cmp("<", num(x), 0))), a)


def power(a, n):
    n = asA(n)
    e = num(n.item()).const()
    if isinstance(e, int):
        return elementwise(lambda x: num(x) ** e, a)
    if e == Fraction(1, 2):
        return np_sqrt(a)
    if e == Fraction(-1, 2):
        return 1 / np_sqrt(a)
    raise Unsupported("power")


def np_sqrt(a):
    return elementwise(lambda x: tsqrt(num(x)), let(asA(a)), dtype="f")


def fn1(name):
    return lambda a: elementwise(lambda x: app(name, num(x)) if num(x).m or name in ("cos", "exp") else P.of(0), a, dtype="f")


def np_arctan(a):
    """arctan(tan(x)) = x for the half fields of view, which are below a right angle."""
    def f(x):
        x = num(x)
        if len(x.m) == 1:
            (k, c), = x.m.items()
            if c == 1 and len(k) == 1 and k[0][1] == 1 and k[0][0].kind == "fn" and k[0][0].name == "tan":
                return k[0][0].args[0]
        return app("arctan", x)
    return elementwise(f, a, dtype="f")


def np_cross(a, b, axis=-1):
    a, b = asA(a), asA(b)
    if axis != -1 and axis != max(a.ndim, b.ndim) - 1:
        raise Unsupported("cross along another axis")
    na, nb = a.dims[-1], b.dims[-1]
    if na == 2 and nb == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    if na != 3 or nb != 3:
        raise Unsupported("cross product of other sizes")
    dims = bdims(a.dims, b.dims)
    ra, rb = bcast(a, dims), bcast(b, dims)

    def f(idx):
        k = idx[-1]
        i, j = (k + 1) % 3, (k + 2) % 3
        h = idx[:-1]
        return num(ra(h + (i,))) * num(rb(h + (j,))) - num(ra(h + (j,))) * num(rb(h + (i,)))
    return let(new(dims, f))


def np_dot(a, b):
    if isinstance(a, Sp):
        return a.dot(b)
    a, b = asA(a), asA(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    kb = 0 if b.ndim == 1 else b.ndim - 2
    if not (same_dim(a.dims[-1], b.dims[kb]) or a.dims[-1] == b.dims[kb]):
        raise ValueError("shapes not aligned")
    ra, rb, n, na = a.reader(), b.reader(), a.dims[-1], a.ndim - 1
    dims = a.dims[:-1] + tuple(d for k, d in enumerate(b.dims) if k != kb)

    def f(idx):
        ia, ib = idx[:na], idx[na:]
        return sum_dim(n, lambda x: num(ra(ia + (x,))) * num(rb(ib[:kb] + (x,) + ib[kb:])))
    return new(dims, f)


def np_det(a):
    a = asA(a)
    r = a.reader()
    n = a.dims[-1]
    if n not in (2, 3) or a.dims[-2] != n:
        raise Unsupported("determinant")

    def f(idx):
        m = lambda i, j: num(r(idx + (i, j)))  # noqa: E731
        if n == 2:
            return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0)
        return (m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0))
                + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)))
    return new(a.dims[:-2], f)


def np_inv(a):
    a = asA(a)
    r = a.reader()
    if a.dims != (3, 3):
        raise Unsupported("inverse")
    d = num(np_det(a).item())

    def f(idx):
        i, j = idx[1], idx[0]
        i1, i2, j1, j2 = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
        return (num(r((i1, j1))) * num(r((i2, j2))) - num(r((i1, j2))) * num(r((i2, j1)))) / d
    return new((3, 3), f)


def np_norm(a, ord=None, axis=None, keepdims=False):
    a = asA(a)
    if ord not in (None, 2, "fro") or ord == 2 and axis is None and a.ndim != 1 or isinstance(axis, (tuple, list)) and ord == 2:
        raise Unsupported("norm of this order")
    return np_sqrt(np_sum(asA(a) ** 2, axis, keepdims))


def np_expand_dims(a, axis):
    a = asA(a)
    axis = axis % (a.ndim + 1)
    return a[tuple([slice(None)] * axis + [None])]


def np_squeeze(a, axis=None):
    a = asA(a)
    ax = [k for k, d in enumerate(a.dims) if isinstance(d, int) and d == 1] if axis is None else naxes(a, axis)
    for k in ax:
        if not (isinstance(a.dims[k], int) and a.dims[k] == 1):
            raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    return a[tuple(0 if k in ax else slice(None) for k in range(a.ndim))]


def prod_parts(dims):
    out = []
    for d in dims:
        if isinstance(d, int) and d == 1:
            continue
        out.extend(d.parts if isinstance(d, Prod) else [d])
    return out


def reshape(a, shape):
    shape = [(-1 if isinstance(s, int) and s == -1 else asdim(s)) for s in shape]
    src = prod_parts(a.dims)
    if len(src) == 1 and isinstance(src[0], Opq):
        return unflatten(a, shape)
    if any(isinstance(d, Opq) for d in shape):
        shape = structure(src, shape)
    if -1 in [s for s in shape if isinstance(s, int)]:
        k = [isinstance(s, int) and s == -1 for s in shape].index(True)
        head, tail = prod_parts(shape[:k]), prod_parts(shape[k + 1:])
        mid = list(src)
        for d in head:
            mid = strip(mid, d, 0)
        for d in tail[::-1]:
            mid = strip(mid, d, -1)
        shape[k] = join(mid)
    dst = prod_parts(shape)
    if all(isinstance(d, int) for d in src + dst):
        n = 1
        for d in src:
            n *= d
        m = 1
        for d in dst:
            m *= d
        if n != m:
            raise ValueError("cannot reshape")
    elif len(src) != len(dst) or not all(same_dim(x, y) or x == y for x, y in zip(src, dst)):
        # the concrete parts may be grouped differently
        if not regroup(src, dst):
            if not valid(cmp("==", size(Prod(src)), size(Prod(dst)))):
                raise ValueError("cannot reshape")
            raise Unsupported("reshape to another structure")
    r = a.reader()
    ad = a.dims
    shape_t = tuple(shape)

    def f(idx):
        flat = []
        for i, d in zip(idx, shape_t):
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(d, Prod):
                flat.extend(zip(i[1:], d.parts))
            else:
                flat.append((i, d))
        out = []
        for d in ad:
            if isinstance(d, int) and d == 1:
                out.append(0)
            elif isinstance(d, Prod):
                sub = []
                for p in d.parts:
                    sub.append(pull(flat, p))
                out.append(("p",) + tuple(sub))
            else:
                out.append(pull(flat, d))
        return r(tuple(out))

    x = new(shape, f, a.buf.dtype)
    x.ro = True
    x.view_of = a
    return x


def structure(src, shape):
    """The parts of the array that make the lengths only known by their number of elements."""
    left, out = list(src), []
    for d in shape:
        if isinstance(d, int) and d == 1:
            out.append(d)
            continue
        if d == -1 or not left:
            raise Unsupported("reshape")
        if not isinstance(d, Opq):
            left = strip(left, d, 0)
            out.append(d)
            continue
        n = 0
        while n < len(left) and size(Prod(left[:n])) != d.sz:
            n += 1
        if size(Prod(left[:n])) != d.sz:
            if not valid(cmp("==", size(Prod(src)), size(Prod(shape)))):
                raise ValueError("cannot reshape")
            raise Unsupported("reshape to another structure")
        out.append(Prod(left[:n]))
        left = left[n:]
    return out


def unflatten(a, shape):
    """A vector of n = n1 x n2 x ... elements as an array of shape (n1, n2, ...)."""
    shape = list(shape)
    holes = [k for k, d in enumerate(shape) if isinstance(d, int) and d == -1]
    if len(holes) == 1:   # the length left open, when it is one of the known lengths
        rest = [d for k, d in enumerate(shape) if k != holes[0]]
        total = size(Prod(prod_parts(a.dims)))
        if all(isinstance(d, int) for d in rest):
            n = 1
            for d in rest:
                n *= d
            shape[holes[0]] = mkdim(total * P.of(Fraction(1, n)))
        else:
            for d in SIZE.values():
                if d.size * size(Prod(rest)) == total:
                    shape[holes[0]] = B(d.name)
                    break
    if any(isinstance(d, int) and d == -1 for d in shape) or any(isinstance(d, (Opq, Prod, Cat)) for d in shape):
        raise Unsupported("reshape")
    if not valid(cmp("==", size(Prod(prod_parts(a.dims))), size(Prod(shape)))):
        raise ValueError("cannot reshape")
    r, ad = a.reader(), a.dims

    def f(idx):
        n = P.of(0)
        for i, d in zip(idx, shape):
            n = n * size(d) + idx_num(i)
        return r(tuple(0 if isinstance(d, int) else n for d in ad))
    x = new(shape, f, a.buf.dtype)
    x.ro = True
    x.view_of = a
    return x


def pull(flat, d):
    """Takes from flat [(index, dim)] the index on an axis of dimension d."""
    i, e = flat.pop(0)
    if same_dim(e, d) or not isinstance(d, int) and not isinstance(e, int):
        return i
    if isinstance(d, int) and isinstance(e, int):
        if e > d and e % d == 0:   # the source axis is a leading part of the index
            q, r = divmod(i, e // d)
            flat.insert(0, (r, e // d))
            return q
        while e < d:
            j, g = flat.pop(0)
            i, e = i * g + j, e * g
        if e == d:
            return i
    raise Unsupported("reshape")


def strip(parts, d, end):
    if not parts:
        raise ValueError("cannot reshape")
    if same_dim(parts[end], d):
        return parts[:-1] if end else parts[1:]
    p = parts[end]
    if isinstance(p, int) and isinstance(d, int) and p % d == 0:
        return (parts[:-1] + [p // d]) if end else ([p // d] + parts[1:])
    raise Unsupported("reshape")


def join(parts):
    parts = [p for p in parts if not (isinstance(p, int) and p == 1)]
    if all(isinstance(p, int) for p in parts):
        n = 1
        for p in parts:
            n *= p
        return n
    return parts[0] if len(parts) == 1 else Prod(parts)


def regroup(src, dst):
    def key(l):
        out, acc = [], 1
        for d in l:
            if isinstance(d, int):
                acc *= d
            else:
                out += [acc, d.key()]
                acc = 1
        return out + [acc]
    return key(src) == key(dst)


def np_unique(a, return_inverse=False, return_counts=False, return_index=False, axis=None):
    """Assumed contract: positions of the distinct values; inverse maps equal values to the
    same position and different values to different ones, and covers all positions."""
    if axis is not None or return_index:
        raise Unsupported("unique of rows")
    a = asA(a)
    if a.ndim != 1:
        raise Unsupported("unique of a matrix")
    E = B(f"E{_uniq_n[0] + 1}" if _uniq_n[0] else "E")
    _uniq_n[0] += 1
    d = a.dims[0]
    name = f"id:{E.base.name}"
    inv = symbol(name, d, dtype="i")
    ra = a.reader()
    inv.onto, inv.below, inv.values = True, E, ra
    AXIOMS[name] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), E.base.size))]
    ctx().unique = dict(E=E, inv=inv, keys=ra, dim=d, name=name)
    uniq = symbol(f"unique:{E.base.name}", E, dtype="i")
    ir = inv.reader()
    counts = new((E,), lambda idx: sum_dim(d, lambda p: delta(num(ir((p,))), idx_num(idx[0]))), "i")
    out = [uniq]
    if return_inverse:
        out.append(inv)
    if return_counts:
        out.append(counts)
    return tuple(out) if len(out) > 1 else uniq


_uniq_n = [0]


def add_at(a, idx, vals):
    if isinstance(idx, tuple):
        raise Unsupported("add.at with several index arrays")
    idx, vals = asA(idx), asA(vals)
    n = idx.ndim
    rv = bcast(vals, idx.dims + a.dims[1:])
    ri, old = idx.reader(), a.reader()
    dims = idx.dims

    def f(t):
        def rec(k, pre):
            if k == n:
                return delta(num(ri(pre)), idx_num(t[0])) * num(rv(pre + t[1:]))
            return sum_dim(dims[k], lambda x: rec(k + 1, pre + (x,)))
        return num(old(t)) + rec(0, ())
    a.assign(new(a.dims, f, a.buf.dtype))


def bincount(x, weights=None, minlength=0):
    x = asA(x)
    if x.ndim != 1:
        raise ValueError("object too deep for desired array")
    top = getattr(x, "below", None)
    (d,) = shp((minlength,))
    if top is None or not same_dim(shp((top,))[0], d):
        raise Unsupported("bincount: values that may reach minlength")
    r = np_zeros((d,), int if weights is None else float)
    add_at(r, x, np_ones(x.dims, int) if weights is None else weights)
    return r


class _At:
    def __init__(self, f):
        self._f = f

    def at(self, a, idx, vals):
        add_at(a, idx, vals)

    def __call__(self, a, b, out=None):
        r = asA(a) + asA(b)
        if out is None:
            return r
        out = out[0] if isinstance(out, tuple) else out
        out[...] = r
        return out

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False):
        return np_sum(asA(a), axis=axis, keepdims=keepdims)

    def outer(self, a, b):
        return asA(a).flatten()[:, None] + asA(b).flatten()[None, :]


def plain_order(order):
    if order not in ("C", "K", "A"):
        raise Unsupported("memory order")


class Ufunc:
    def __init__(self, f, red=None):
        self.f, self.red = f, red

    def __call__(self, *a, out=None):
        r = self.f(*a)
        if out is None:
            return r
        out = out[0] if isinstance(out, tuple) else out
        out[...] = r
        return out

    def reduce(self, a, axis=0, keepdims=False):
        if self.red is None:
            raise Unsupported("reduce")
        r = self.red(asA(a), axis)
        return np_expand_dims(r, axis) if keepdims else r

    def outer(self, a, b):
        return self.f(asA(a).flatten()[:, None], asA(b).flatten()[None, :])


def np_split(a, n, axis=0):
    a = asA(a)
    axis = axis % a.ndim
    d = a.dims[axis]
    if not isinstance(d, int) or not isinstance(n, int):
        raise Unsupported("split")
    if d % n:
        raise ValueError("array split does not result in an equal division")
    w = d // n
    return [a[(slice(None),) * axis + (slice(k * w, (k + 1) * w),)] for k in range(n)]


def np_select(conds, values, default=0):
    r = default
    for c, v in reversed(list(zip(conds, values))):
        r = np_where(c, v, r)
    return r


def np_roll(a, shift, axis=None):
    a = asA(a)
    if axis is None or not isinstance(a.dims[axis], int):
        raise Unsupported("roll")
    n = a.dims[axis]
    return np_take(a, [(k - shift) % n for k in range(n)], axis=axis)


def np_flip(a, axis=None):
    a = asA(a)
    axes = range(a.ndim) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
    return a[tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(a.ndim))].copy()


def np_block(rows):
    if any(isinstance(r, (list, tuple)) for r in rows):
        return np_vstack([np_hstack(r) for r in rows])
    return np_hstack(rows)


def np_copyto(dst, src, where=True):
    dst[...] = asA(src) if where is True else np_where(where, src, dst)


def np_diff(a, axis=-1):
    a = asA(a)
    n = a.dims[axis % a.ndim]
    if not isinstance(n, int):
        raise Unsupported("diff")
    return np_take(a, list(range(1, n)), axis=axis) - np_take(a, list(range(n - 1)), axis=axis)


class _S:
    def __getitem__(self, i):
        return i


class _C:
    """np.c_ of vectors and matrices."""
    def __getitem__(self, l):
        return np_column_stack(l if isinstance(l, tuple) else (l,))


def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")

    def f(c, x, y):
        c = cond(c)
        return num(y) + ind(c) * (num(x) - num(y))
    return elementwise(f, c, a, b, dtype="f" if "f" in (asA(a).buf.dtype, asA(b).buf.dtype) else "i")


def np_allclose(a, b, *r, **k):
    """As exact equality."""
    return np_all(asA(a) == asA(b))


def np_std(a, axis=None):
    a = asA(a)
    if axis != 0:
        raise Unsupported("std")
    d = a - np_mean(a, axis=0)[None]
    return np_sqrt(np_mean(d * d, axis=0))


def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None):
    lo, hi = a_min if min is None else min, a_max if max is None else max
    if out is not None:
        out[...] = np_clip(a, lo, hi)
        return out
    if lo is None:
        return elementwise(vmin, a, hi)
    if hi is None:
        return elementwise(vmax, a, lo)
    lo, hi = asA(lo), asA(hi)
    return elementwise(lambda x, l, h: vmin(vmax(x, l), h), a, lo, hi)


def np_einsum(spec, *ops):
    ops = [asA(o) for o in ops]
    if "..." in spec:
        spec = spec.replace(" ", "")
        ins, arrow, out = spec.partition("->")
        parts, longest = [], ""
        for q, o in zip(ins.split(","), ops):
            n = o.ndim - len(q.replace("...", ""))
            longest = max(longest, "ABCDEFGH"[:n], key=len)
            parts.append((q, n))
        k = len(longest)
        if any(isinstance(o.dims[q.index("...") + j], int) and o.dims[q.index("...") + j] == 1 for (q, n), o in zip(parts, ops) if "..." in q for j in range(n)):
            raise Unsupported("einsum with broadcasting")
        ins = ",".join(q.replace("...", longest[k - n:]) for q, n in parts)
        if not arrow:
            letters = ins.replace(",", "")
            out = longest + "".join(sorted(c for c in set(letters) - set(longest) if letters.count(c) == 1))
        spec = ins + "->" + out.replace("...", longest)
    if "->" not in spec:
        letters = spec.replace(" ", "").replace(",", "")
        spec += "->" + "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    if "." in spec:
        raise Unsupported("einsum")
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.dims):
            dims.setdefault(c, d)
    rs = [o.reader() for o in ops]
    red = [c for c in dims if c not in out]

    def f(idx):
        env = dict(zip(out, idx))

        def rec(k):
            if k == len(red):
                r = P.of(1)
                for s, q in zip(ins, rs):
                    r = r * num(q(tuple(env[c] for c in s)))
                return r

            def g(x):
                env[red[k]] = x
                return rec(k + 1)
            return sum_dim(dims[red[k]], g)
        return rec(0)
    return new([dims[c] for c in out], f)


def np_prod(x):
    if isinstance(x, tuple):
        r = P.of(1)
        for d in x:
            r = r * size(d)
        return mkdim(r)
    a = asA(x)
    r = P.of(1)
    for i in range(len(a)):
        r = r * num(a.at(i))
    return scalar(r)


class np_matrix(A):
    pass


# ------------------------------------------------------------------ sparse matrices

class Sp:
    def __init__(self, dims, fn):
        self.dims, self.fn = tuple(asdim(d) for d in dims), fn

    @property
    def shape(self):
        return self.dims

    @property
    def T(self):
        return Sp(self.dims[::-1], lambda i, j: self.fn(j, i))

    def transpose(self):
        return self.T

    def dot(self, o):
        if isinstance(o, Sp):
            d = self.dims[1]
            if not (same_dim(d, o.dims[0]) or d == o.dims[0]):
                raise ValueError("dimension mismatch")
            return Sp((self.dims[0], o.dims[1]), lambda i, j: sum_dim(d, lambda k: self.fn(i, k) * o.fn(k, j)))
        o = asA(o)
        if o.ndim == 0:
            v = num(o.item())
            return Sp(self.dims, lambda i, j: self.fn(i, j) * v)
        d = self.dims[1]
        if not (same_dim(d, o.dims[0]) or d == o.dims[0]):
            raise ValueError("dimension mismatch")
        r = o.reader()
        return let(new((self.dims[0],) + o.dims[1:], lambda idx: sum_dim(d, lambda k: self.fn(idx[0], k) * num(r((k,) + idx[1:])))), 1)

    def __mul__(self, o):
        return self.dot(o)

    def __matmul__(self, o):
        return self.dot(o)

    def __rmul__(self, o):
        o = asA(o)
        if o.ndim:
            raise Unsupported("array times sparse matrix")
        return self.dot(o)

    def __truediv__(self, o):
        return self.dot(1 / asA(o))

    def __add__(self, o):
        return Sp(self.dims, lambda i, j: self.fn(i, j) + o.fn(i, j))

    def __sub__(self, o):
        if not all(same_dim(a, b) or a == b for a, b in zip(self.dims, o.dims)):
            raise ValueError("inconsistent shapes")
        return Sp(self.dims, lambda i, j: self.fn(i, j) - o.fn(i, j))

    def __neg__(self):
        return Sp(self.dims, lambda i, j: -self.fn(i, j))

    def __gt__(self, c):
        return Sp(self.dims, lambda i, j: ind(cmp("<", num(c) if not isinstance(c, (int, float)) else P.of(c), self.fn(i, j))))

    def _same(self, *a, **k):
        return Sp(self.dims, self.fn)

    tocsr = tocoo = tocsc = astype = copy = _same

    def todense(self):
        return new(self.dims, lambda idx: self.fn(*idx))

    def toarray(self):
        return self.todense()

    def sum(self, axis=None):
        if axis == 1:
            return new((self.dims[0], 1), lambda idx: sum_dim(self.dims[1], lambda k: self.fn(idx[0], k)))
        if axis == 0:
            return new((1, self.dims[1]), lambda idx: sum_dim(self.dims[0], lambda k: self.fn(k, idx[1])))
        raise Unsupported("sum of a sparse matrix")


SpBool = type("SpBool", (), {})


def coo_matrix(data, shape=None, dtype=None, copy=False):
    v, (i, j) = data
    v, i, j = asA(v), asA(i), asA(j)
    d = bdims(bdims(i.dims, j.dims), v.dims)[0]
    rv, ri, rj = bcast(v, (d,)), bcast(i, (d,)), bcast(j, (d,))

    def f(r, c):
        return sum_dim(d, lambda p: delta(num(ri((p,))), idx_num(r)) * delta(num(rj((p,))), idx_num(c)) * num(rv((p,))))
    return Sp(shape, f)


def sp_eye(m, n=None, k=0, dtype=None, format=None):
    if k != 0:
        raise Unsupported("eye off the diagonal")
    n, m = m, n
    return Sp((n, n if m is None else m), lambda i, j: ind(idx_eq(i, j)))


def sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(offsets, (list, tuple)):
        if list(offsets) != [0]:
            raise Unsupported("diags")
        diagonals = diagonals[0]
    elif offsets != 0:
        raise Unsupported("diags")
    d = asA(diagonals)
    r = d.reader()
    n = d.dims[0] if shape is None else shape[0]
    return Sp((n, n), lambda i, j: ind(idx_eq(i, j)) * num(r((i,))))


def sp_kron(A, B, format=None):
    a, b = A, B
    def f(i, j):
        return a.fn(i[1], j[1]) * b.fn(i[2], j[2])
    return Sp((Prod((a.dims[0], b.dims[0])), Prod((a.dims[1], b.dims[1]))), f)


# ------------------------------------------------------------------ the module objects

class NS:
    def __init__(self, name, **k):
        self.__dict__.update(k)
        self._name = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"{self._name}.{k}")


def sfloat(x=0):
    if isinstance(x, (A, P, SB, Dim)):
        return asA(x).astype("f") if asA(x).ndim == 0 else asA(x)
    return float(x)


def sint(x=0, *a):
    if isinstance(x, (Dim, P)):
        return x
    if isinstance(x, A):
        v = num(x.item())
        if v.const() is not None:
            return int(v.const())
        if v.is_int():
            return mkdim(v) if v in SIZE else x
        raise Unsupported("int of a symbol")
    return int(x, *a)


def slen(x):
    if isinstance(x, (A, Filter)):
        return x.dims[0]
    return len(x)


def smax(*a, **k):
    if len(a) > 1 and any(isinstance(x, (A, P, Dim)) for x in a):
        r = asA(a[0])
        for x in a[1:]:
            r = elementwise(vmax, r, x)
        return r
    return max(*a, **k)


def smin(*a, **k):
    if len(a) > 1 and any(isinstance(x, (A, P, Dim)) for x in a):
        r = asA(a[0])
        for x in a[1:]:
            r = elementwise(vmin, r, x)
        return r
    return min(*a, **k)


def srange(*a):
    if any(isinstance(x, Dim) for x in a):
        raise Unsupported("loop over a symbolic range")
    return range(*[x.__index__() for x in a])


def sisinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if any(s is np.ndarray for s in ts) and isinstance(x, A):
        return True
    ts = tuple(A if s is np.ndarray else {sint: int, sfloat: float}.get(s, s) for s in ts)
    return isinstance(x, ts)


def ssum(x, *a):
    if isinstance(x, A):
        r = a[0] if a else 0
        for y in x:
            r = r + y
        return r
    return sum(x, *a)


BUILTINS = dict(len=slen, int=sint, float=sfloat, max=smax, min=smin, range=srange, isinstance=sisinstance, abs=lambda x: np_abs(x) if isinstance(x, (A, P)) else abs(x), sum=ssum)

def np_prod_axis(a, axis=None):
    a = asA(a)
    if axis is None:
        return np_prod(a)
    if not isinstance(a.dims[axis], int):
        raise Unsupported("product along a symbolic axis")
    return functools.reduce(lambda x, y: x * y, [np_take(a, k, axis=axis) for k in range(a.dims[axis])])


def extend(np):
    """Universal functions with their `out` argument and reductions, and functions by means of others."""
    red = dict(multiply=np_prod_axis, maximum=np_max, minimum=np_min, logical_and=np_all, logical_or=np_any)
    for k in ("subtract multiply divide true_divide maximum minimum negative abs absolute sqrt square logical_and logical_or logical_xor logical_not greater less "
              "greater_equal less_equal equal not_equal reciprocal hypot exp tan cos sin").split():
        np.__dict__[k] = Ufunc(np.__dict__[k], red.get(k))
    np.__dict__.update(fmax=np.maximum, fmin=np.minimum, positive=lambda a: asA(a).copy(), fabs=np.abs, split=np_split, array_split=np_split, hsplit=lambda a, n: np_split(a, n, 1), vsplit=lambda a, n: np_split(a, n, 0),
                       select=np_select, roll=np_roll, flip=np_flip, fliplr=lambda a: np_flip(a, 1), flipud=lambda a: np_flip(a, 0), block=np_block, row_stack=np_vstack, copyto=np_copyto, diff=np_diff, s_=_S(), index_exp=_S(),
                       atleast_1d=lambda a: asA(a) if asA(a).ndim else asA(a)[None], trace=lambda a: sum((asA(a)[k, k] for k in range(asA(a).dims[0])), 0), size=np_size, require=np_asarray)
    np.linalg.__dict__["multi_dot"] = lambda l: functools.reduce(np_dot, l)
    np.__dict__["tensordot"] = np_tensordot


def np_size(a, axis=None):
    return asA(a).size if axis is None else asA(a).shape[axis]


def np_tensordot(a, b, axes=2):
    if axes != 1:
        raise Unsupported("tensordot")
    b = asA(b)
    if b.ndim > 2:
        raise Unsupported("tensordot")
    return np_dot(a, b)


F64 = DType("f")
np = NS("numpy", array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray, zeros=np_zeros, ones=np_ones, empty=np_empty, full=np_full,
        zeros_like=lambda a, dtype=None, order='K', subok=True, shape=None: np_full(asA(a).dims if shape is None else shape, 0, dtype or asA(a).dtype), ones_like=lambda a, dtype=None, order='K', subok=True, shape=None: np_full(asA(a).dims if shape is None else shape, 1, dtype or asA(a).dtype),
        empty_like=lambda a, dtype=None, order='K', subok=True, shape=None: np_empty(asA(a).dims if shape is None else shape, dtype or asA(a).dtype), eye=np_eye, identity=np_eye, arange=np_arange, bincount=bincount, tile=np_tile, concatenate=np_concatenate,
        repeat=np_repeat, diag=np_diag, broadcast_to=np_broadcast_to, swapaxes=np_swapaxes, moveaxis=np_moveaxis, take=np_take, sign=np_sign, full_like=lambda a, v, dtype=None, order='K', subok=True, shape=None: np_full(asA(a).dims if shape is None else shape, v, dtype or asA(a).dtype), hypot=lambda a, b: np_sqrt(asA(a) * asA(a) + asA(b) * asA(b)), true_divide=lambda a, b: asA(a) / asA(b), equal=lambda a, b: asA(a) == asA(b), not_equal=lambda a, b: asA(a) != asA(b), less_equal=lambda a, b: asA(a) <= asA(b), greater_equal=lambda a, b: asA(a) >= asA(b), inner=lambda a, b: np_dot(a, asA(b).T), vdot=lambda a, b: np_dot(asA(a).flatten(), asA(b).flatten()), reciprocal=lambda a: 1 / asA(a), deg2rad=lambda a: asA(a) * var('pi') / 180, rad2deg=lambda a: asA(a) * 180 / var('pi'), size=lambda a: asA(a).size, atleast_2d=lambda a: asA(a) if asA(a).ndim >= 2 else asA(a)[None], append=lambda a, b, axis=None: np_concatenate([asA(a), asA(b)] if axis is not None else [asA(a).flatten(), asA(b).flatten()], axis or 0), stack=np_stack, column_stack=np_column_stack, vstack=np_vstack, hstack=np_hstack, dstack=np_dstack,
        sum=np_sum, ptp=lambda a, axis=None: np_max(a, axis) - np_min(a, axis), mean=np_mean, std=np_std, all=np_all, any=np_any, max=np_max, min=np_min, amax=np_max, amin=np_min, abs=np_abs, absolute=np_abs, sqrt=np_sqrt, square=lambda a: asA(a) * asA(a), power=power,
        maximum=lambda a, b: elementwise(vmax, a, b), minimum=lambda a, b: elementwise(vmin, a, b), cross=np_cross, dot=np_dot, matmul=np_dot,
        tan=fn1("tan"), cos=fn1("cos"), sin=fn1("sin"), arctan=np_arctan, exp=fn1("exp"), degrees=lambda a: asA(a) * 180 / var("pi"), radians=lambda a: asA(a) * var("pi") / 180, pi=var("pi"),
        expand_dims=np_expand_dims, squeeze=np_squeeze, unique=np_unique, where=np_where, allclose=np_allclose, array_equal=np_allclose, clip=np_clip, einsum=np_einsum, prod=np_prod,
        add=_At(None), subtract=lambda a, b: asA(a) - asA(b), multiply=lambda a, b: asA(a) * asA(b), divide=lambda a, b: asA(a) / asA(b), negative=lambda a: -asA(a),
        logical_and=lambda a, b: asA(a) & asA(b), logical_or=lambda a, b: asA(a) | asA(b), logical_not=lambda a: ~asA(a), greater=lambda a, b: asA(a) > asA(b), less=lambda a, b: asA(a) < asA(b),
        transpose=lambda a, axes=None: asA(a).transpose(*(axes or ())), reshape=lambda a, s: asA(a).reshape(s), ravel=lambda a: asA(a).ravel(), copy=lambda a: asA(a).copy(),
        c_=_C(), logical_xor=lambda a, b: (asA(a) & ~asA(b)) | (~asA(a) & asA(b)), count_nonzero=lambda a, axis=None: np_sum(asA(a) != 0, axis=axis),
        outer=lambda a, b: asA(a)[:, None] * asA(b)[None, :], newaxis=None, ndarray=A, float64=F64, double=F64, float32=DType("f4"), uint32=DType("u4"), uint8=DType("u1"), uint64=DType("i"), int64=DType("i"), int32=DType("i"), bool_=DType("b"), integer="integer", floating="floating",
        issubdtype=lambda a, b: {"integer": a.k in ("i", "u4"), "floating": a.k == "f"}[b], shape=lambda a: asA(a).shape, ndim=lambda a: asA(a).ndim, inf=var("inf"),
        linalg=NS("numpy.linalg", norm=np_norm, det=np_det, inv=np_inv))
extend(np)
sparse = NS("scipy.sparse", coo_matrix=coo_matrix, eye=sp_eye, diags=sp_diags, kron=sp_kron, csr_matrix=lambda d, shape=None: coo_matrix(d, shape) if isinstance(d, tuple) else d, csc_matrix=lambda d, shape=None: coo_matrix(d, shape) if isinstance(d, tuple) else d,
            identity=lambda n, dtype=None, format=None: sp_eye(n), csgraph=NS("scipy.sparse.csgraph"))
