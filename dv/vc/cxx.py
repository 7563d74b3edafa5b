"""Symbolic execution of the real C++ header from the clang AST of the current tree.

Mechanical extraction: clang -ast-dump=json of C++/DifferentiableRenderer.h (system
headers included before, nothing dropped from the header).  Numbers are mathematical
reals and integers ("real" mode) or, for memory safety, every floating point value is
unknown, so that infinities and NaN are covered ("safe" mode).
"""
import json
import os
import functools
import re
import struct
import subprocess
from fractions import Fraction
from .term import P, app, atom, var, cmp, band, bor, bnot, floor, ceil, sqrt, equal
from .ctx import Unsupported, Infeasible

REPO = os.environ.get("DV_REPO", "/repo")


class Throw(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


# ------------------------------------------------------------------ AST

def load(header=None, work="/tmp"):
    header = header or os.path.join(REPO, "C++", "DifferentiableRenderer.h")
    src = ("#include <stdlib.h>\n#include <iostream>\n#include <math.h>\n#include <string.h>\n#include <limits>\n#include <limits.h>\n"
           "#include <vector>\n#include <algorithm>\n#include <utility>\n#include <array>\n#include <cmath>\n#include <numeric>\n#include <stdexcept>\n#include <string>\n#include <memory>\n#include <cstddef>\n#include <cstdint>\n"
           "namespace DEODR {\n"
           # std::copy and std::fill on a part of an array are executed as these loops
           "inline void dv_copy(const double *s, int n, double *d) { for (int i = 0; i < n; i++) d[i] = s[i]; }\n"
           "inline void dv_fill(double *d, int n, double v) { for (int i = 0; i < n; i++) d[i] = v; }\n"
           f"#include \"{header}\"\n}}\n")
    r = subprocess.run(["clang++", "-std=c++17", "-x", "c++", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=DEODR", "-"],
                       input=src, capture_output=True, text=True)
    if r.returncode:
        raise Unsupported("clang: " + r.stderr[-1500:])
    s, i, dec, roots = r.stdout, 0, json.JSONDecoder(), []
    while True:
        i = s.find("{", i)
        if i < 0:
            break
        o, i = dec.raw_decode(s, i)
        roots.append(o)
    return Program(roots)


class Fn:
    pass


class Program:
    def __init__(self, roots):
        self.by_id, self.fns, self.records = {}, {}, {}
        for r in roots:
            self.scan(r, None)

    def scan(self, n, tmpl):
        k = n.get("kind")
        if k in ("NamespaceDecl", "LinkageSpecDecl"):
            for x in n.get("inner", []):
                self.scan(x, None)
        elif k == "FunctionTemplateDecl":
            first = True
            for x in n.get("inner", []):
                if x["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                    if first:
                        first = False  # the pattern
                        if any(y.get("kind") == "TemplateArgument" for y in x.get("inner", [])):
                            self.add(x)
                        else:
                            self.pattern(x)
                    else:
                        self.add(x)
        elif k in ("FunctionDecl", "CXXMethodDecl"):
            self.add(n)
        elif k == "CXXRecordDecl" and n.get("completeDefinition"):
            self.records[n["name"]] = n
            for x in n.get("inner", []):
                if x["kind"] == "CXXMethodDecl":
                    x["_cls"] = n["name"]
                    self.add(x)
        elif k == "VarDecl":
            self.by_id[n["id"]] = n

    def pattern(self, n):
        pass

    def add(self, n):
        f = Fn()
        f.name = (n["_cls"] + "::" if "_cls" in n else "") + n.get("name", "?")
        f.id = n["id"]
        f.params = [x for x in n.get("inner", []) if x["kind"] == "ParmVarDecl"]
        f.body = next((x for x in n.get("inner", []) if x["kind"] == "CompoundStmt"), None)
        f.type = n["type"]["qualType"]
        f.node = n
        self.by_id[f.id] = f
        if f.body is not None:
            self.fns.setdefault(f.name, []).append(f)

    def fn(self, name, nparams=None):
        l = [f for f in self.fns.get(name, []) if nparams is None or len(f.params) == nparams]
        if not l:
            raise Unsupported(f"function {name} is no longer in the header")
        return l[-1]


# ------------------------------------------------------------------ types

def qt(n):
    t = n["type"]
    return t.get("desugaredQualType", t["qualType"])


@functools.lru_cache(None)
def clean(t):
    t = re.sub(r"\b(const|volatile|struct|class|register)\b", "", t)
    t = re.sub(r"\b(std::|__gnu_cxx::|DEODR::)", "", t)
    return re.sub(r"\s+", " ", t).strip()


@functools.lru_cache(None)
def is_ref(t):
    return clean(t).endswith("&")


@functools.lru_cache(None)
def unref(t):
    t = clean(t)
    return t.rstrip("& ").strip() if t.endswith("&") else t


@functools.lru_cache(None)
def is_ptr(t):
    t = unref(t)
    return t.endswith("*") or "(*)" in t


@functools.lru_cache(None)
def is_arr(t):
    t = unref(t)
    return t.endswith("]") and "(*)" not in t


@functools.lru_cache(None)
def pointee(t):
    t = unref(t)
    if "(*)" in t:
        return clean(t.replace("(*)", ""))
    if t.endswith("*"):
        return clean(t[:-1])
    if t.endswith("]"):
        i = t.index("[")
        j = t.index("]", i)
        return clean(t[:i] + t[j + 1:])
    raise Unsupported("pointee of " + t)


def arr_dims(t):
    t = unref(t)
    return [int(x) if x else None for x in re.findall(r"\[(\d*)\]", t)]


def units(t):
    n = 1
    if is_arr(t):
        for d in arr_dims(t):
            n *= d
    return n


FLOATS = {"double", "float", "long double"}
INTS = {"int": 32, "unsigned int": 32, "short": 16, "unsigned short": 16, "long": 64, "unsigned long": 64, "size_t": 64, "size_type": 64, "char": 8, "signed char": 8, "unsigned char": 8, "long long": 64, "unsigned long long": 64, "ptrdiff_t": 64, "value_type": 64, "int32_t": 32, "uint32_t": 32, "int64_t": 64, "std::size_t": 64, "difference_type": 64}


def is_float(t):
    return unref(t) in FLOATS


def is_bool(t):
    return unref(t) in ("bool", "_Bool")


def is_int(t):
    t = unref(t)
    return t in INTS or t.endswith("size_type")


# ------------------------------------------------------------------ memory

class Obj:
    """An allocation.  Identity is by uid, deterministic along a path."""

    def __init__(self, name, dims=(), init=None, elem="double", ghosts=None, writable=True, uid=None):
        self.uid = uid or name
        self.name, self.dims, self.init, self.elem, self.writable = name, [P.of(d) for d in dims], init, elem, writable
        self.ghosts = ghosts or [None] * len(self.dims)

    def __eq__(self, o):
        return isinstance(o, Obj) and self.uid == o.uid

    def __hash__(self):
        return hash(self.uid)

    def __repr__(self):
        return f"<{self.name}>"


class LV:
    __slots__ = ("obj", "off", "path", "t")

    def __init__(self, obj, off, path, t):
        self.obj, self.off, self.path, self.t = obj, P.of(off), path, t


class Ptr:
    __slots__ = ("obj", "off", "path")

    def __init__(self, obj, off=0, path=()):
        self.obj, self.off, self.path = obj, P.of(off), path

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off and self.path == o.path

    def __hash__(self):
        return hash((self.obj, self.off, self.path))

    def __repr__(self):
        return f"&{self.obj}[{self.off}]{''.join(self.path)}"


class NullPtr:
    def __repr__(self):
        return "NULL"


NULL = NullPtr()


class FL:
    """A floating point value about which nothing is known (safe mode)."""

    def __repr__(self):
        return "float?"


FLOAT = FL()


class Opaque:
    def __init__(self, what):
        self.what = what


class Interp:
    """One function execution context (shared store, current ctx)."""

    def __init__(self, prog, ctx, mode="real", contracts=None, dims=None):
        self.prog, self.ctx, self.mode = prog, ctx, mode
        self.contracts = contracts or {}
        self.dims = dims or {}       # dimension atom name -> (rank, ghost)
        self.store = {}              # Obj -> {coords+path: value}
        self.log = None              # list of access logs (innermost last)
        self.logs = []
        self.hats = {}               # while classifying a loop
        self.tolerant = 0
        self.events = []
        self.facts = []
        self.depth = 0
        self.fnstack = []
        self.bounds = True

    def uid(self, name):
        self.ctx.nfresh += 1
        u = f"{name}~{self.ctx.fprefix}{self.ctx.nfresh}"
        for l in self.logs:
            l["created"].add(u)
        return u

    # ---------------------------------------------------------- coordinates
    def coords(self, obj, off, write=False):
        """Decode a flat offset; obligation: inside the object."""
        d = obj.dims
        if not d:
            if off.const() != 0:
                self.oblige_bounds(obj, False, off)
            return ()
        out = []
        rest = off
        for i in range(len(d) - 1):
            stride = P.of(1)
            for x in d[i + 1:]:
                stride = stride * x
            (sm, sc), = stride.m.items()
            q, r = P({}), {}
            for k, v in rest.m.items():
                kd = dict(k)
                if all(kd.get(a, 0) >= e for a, e in sm) and isinstance(v, int):
                    nk = tuple((a, x) for a, x in ((a, kd[a] - dict(sm).get(a, 0)) for a, _ in k) if x)
                    fl = v // sc
                    if fl:
                        q = q + P({nk: fl})
                    if v - fl * sc:
                        r[k] = v - fl * sc
                else:
                    r[k] = v
            out.append(q)
            rest = P(r)
        out.append(rest)
        if self.bounds and not self.tolerant:
            for i in range(len(out) - 1, 0, -1):
                c, s = out[i], d[i]
                if c.const() is not None and s.const() is not None or self.ctx.valid(band(cmp(">=", c, 0), cmp("<", c, s))):
                    continue
                # the last digit may have been taken for a carry
                for k in (1, -1):
                    if self.ctx.valid(band(cmp(">=", c + s * k, 0), cmp("<", c + s * k, s))):
                        out[i], out[i - 1] = c + s * k, out[i - 1] - k
                        break
        for c, s in zip(out, d):
            ok = True
            cc, sc = c.const(), s.const()
            if cc is not None and sc is not None:
                ok = 0 <= cc < sc
            elif self.bounds and not self.tolerant:
                ok = self.ctx.valid(band(cmp(">=", c, 0), cmp("<", c, s)))
            if self.bounds or not ok:
                self.oblige_bounds(obj, ok, off, out)
        return tuple(out)

    def oblige_bounds(self, obj, ok, off, out=None):
        if self.tolerant:
            return
        if self.mode == "safe":
            self.ctx.report.add(f"{self.ctx.name}: every index of {obj.name} used in {self.fnstack[-1] if self.fnstack else '?'} is inside it", ok, "z3", 0, None if ok else f"{obj.name} of shape {obj.dims} at {out if out is not None else off}, {self.where()}, path {self.ctx.pc[-12:]}")
        elif not ok:
            self.ctx.report.fail(f"{self.ctx.name}: indices of {obj.name} are inside it", f"{obj.name} of shape {obj.dims} at {out if out is not None else off}, {self.where()}")

    def where(self):
        return f"{'>'.join(self.fnstack[-3:])} line {getattr(self, 'line', '?')}"

    # ---------------------------------------------------------- load / store
    def load(self, lv):
        obj = lv.obj
        if self.mode == "safe" and is_float(lv.t):
            self.coords(obj, lv.off)
            return FLOAT
        key = self.coords(obj, lv.off) + lv.path
        return self.read(obj, key, lv.t)

    on_read = on_unknown = None

    def read(self, obj, key, t=None):
        if self.on_read:
            self.on_read(obj)
        if self.logs:
            for l in self.logs:
                l["reads"].append((obj, key))
        if self.tolerant and self.hatted(key):
            return self.unknown(obj, key, t, False)
        cells = self.store.get(obj, {})
        if key in cells:
            return cells[key]
        if not obj.writable and obj.init is not None:
            v = obj.init(*key)
            self.store.setdefault(obj, {})[key] = v
            return v
        for k, v in cells.items():
            if k == "#stale" or len(k) != len(key):
                continue
            s = self.same(k, key)
            if s is True:
                return v
            if s is None:
                c = band(*[cmp("==", a, b) for a, b in zip(k, key) if isinstance(a, P)])
                if self.ctx.branch(c):
                    return v
        if cells.get("#stale") and not self.is_ghost(obj, key):
            return self.unknown(obj, key, t)
        if obj.init is not None:
            v = obj.init(*key)
            self.store.setdefault(obj, {})[key] = v
            return v
        return self.unknown(obj, key, t)

    def hatted(self, key):
        return any(isinstance(x, P) and any(a.name.startswith("hat:") for a in x.all_atoms()) for x in key)

    def unknown(self, obj, key, t, keep=True):
        t = t or obj.elem
        if self.mode == "safe" and is_float(t):
            return FLOAT
        if is_bool(t):
            v = ("b", atom("var", f"undef_{obj.name}~{self.ctx.fprefix}{self.ctx.nfresh}", (), "B"))
            self.ctx.nfresh += 1
        elif is_ptr(t):
            raise Unsupported(f"read of an unset pointer {obj.name}{list(key)} at {self.where()}")
        else:
            v = self.ctx.fresh("undef_" + obj.name, "R" if is_float(t) else "I")
            if self.on_unknown:
                self.on_unknown(obj, key, v)
        if keep:
            self.store.setdefault(obj, {})[key] = v
        return v

    def is_ghost(self, obj, key):
        for c, g in zip(key, obj.ghosts):
            if g is not None and not (isinstance(c, P) and equal(c, g)):
                return False
        return True

    def same(self, a, b):
        """True / False / None (unknown) equality of two cell keys."""
        eqs = []
        for x, y in zip(a, b):
            if isinstance(x, P) != isinstance(y, P):
                return False
            if isinstance(x, P):
                d = x - y
                c = d.const()
                if c is None:
                    eqs.append(cmp("==", x, y))
                elif c != 0:
                    return False
            elif x != y:
                return False
        if not eqs:
            return True
        c = band(*eqs)
        if self.ctx.valid(bnot(c)):
            return False
        if self.ctx.valid(c):
            return True
        return None

    def write(self, lv, v):
        obj = lv.obj
        key = self.coords(obj, lv.off, True) + lv.path
        if not obj.writable and not self.tolerant:
            self.ctx.report.fail(f"{self.ctx.name}: {obj.name} is not modified", f"write at {self.where()}")
        if self.logs:
            for l in self.logs:
                l["writes"].append((obj, key))
        if self.mode == "safe" and is_float(lv.t) or self.tolerant and self.hatted(key):
            return
        cells = self.store.setdefault(obj, {})
        for k in list(cells):
            if k == "#stale" or k == key or len(k) != len(key):
                continue
            s = self.same(k, key)
            if s is True:
                del cells[k]
            elif s is None:
                c = band(*[cmp("==", a, b) for a, b in zip(k, key) if isinstance(a, P)])
                if self.ctx.branch(c):
                    del cells[k]
        cells[key] = v

    def snapshot(self):
        return {o: dict(c) for o, c in self.store.items()}

    # ---------------------------------------------------------- functions
    def call(self, f, args):
        """args: list of values (or LV for references)."""
        if self.depth > 40:
            raise Unsupported("recursion in " + f.name)
        env = {}
        for p, a in zip(f.params, args):
            t = qt(p)
            if is_ref(t) and isinstance(a, LV):
                env[p["id"]] = a
            elif isinstance(a, LV):
                lv = env[p["id"]] = self.new_local(p.get("name", "arg"), t)
                self.copy_struct(a, lv)
            else:
                env[p["id"]] = self.new_local(p.get("name", "arg"), unref(t) if not is_arr(t) else t, a, param=True)
        self.depth += 1
        self.fnstack.append(f.name)
        try:
            self.block(f.body, env)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.fnstack.pop()

    def new_local(self, name, t, v=None, param=False):
        if is_arr(t) and not param:
            dims = arr_dims(t)
            n = 1
            for d in dims:
                n *= d
            base = t
            for _ in dims:
                base = pointee(base)
            o = Obj(name, [n], None, base, uid=self.uid(name))
            lv = LV(o, 0, (), clean(t))
        else:
            o = Obj(name, [], None, clean(t), uid=self.uid(name))
            lv = LV(o, 0, (), clean(t))
            if v is not None:
                self.setlv(lv, v)
        return lv

    def setlv(self, lv, v):
        if isinstance(v, dict):  # struct value
            for k, x in v.items():
                self.store.setdefault(lv.obj, {})[self.coords(lv.obj, lv.off) + lv.path + k] = x
            return
        if self.mode == "safe" and v is FLOAT:
            key = self.coords(lv.obj, lv.off, True)
            for l in self.logs:
                l["writes"].append((lv.obj, key + lv.path))
            return
        self.write(lv, v)

    # ---------------------------------------------------------- statements
    def block(self, n, env):
        for s in n.get("inner", []):
            self.stmt(s, env)

    def stmt(self, n, env):
        k = n["kind"]
        b = n.get("range", {}).get("begin", {})
        if "line" in b:
            self.line = b["line"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n, env)
        self.expr(n, env)

    def s_CompoundStmt(self, n, env):
        self.block(n, env)

    def s_NullStmt(self, n, env):
        pass

    def s_DeclStmt(self, n, env):
        for d in n["inner"]:
            if d["kind"] == "VarDecl":
                self.vardecl(d, env)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "UsingDirectiveDecl"):
                pass
            else:
                raise Unsupported("declaration " + d["kind"])

    def vardecl(self, d, env):
        t = qt(d)
        init = next((x for x in d.get("inner", []) if x["kind"].endswith(("Expr", "Literal", "Operator", "Cleanups")) or x["kind"] in ("InitListExpr",)), None)
        if is_ref(t):
            lv = self.lvalue(init, env)
            env[d["id"]] = lv
            return
        if "vector<" in t:
            self.vector(d, t, init, env)
            return
        lv = self.new_local(d["name"], t)
        env[d["id"]] = lv
        if init is None:
            return
        if is_arr(t):
            self.init_array(lv, t, init, env)
        else:
            ct = clean(t)
            if ct in self.prog.records:
                if init["kind"] == "CXXConstructExpr" and not init.get("inner"):
                    return
                src = self.lvalue(self.strip(init), env)
                self.copy_struct(src, lv)
                return
            self.setlv(lv, self.expr(init, env))

    def copy_struct(self, src, dst):
        pre = self.coords(src.obj, src.off) + src.path
        for k, v in list(self.store.get(src.obj, {}).items()):
            if k != "#stale" and k[:len(pre)] == pre:
                self.store.setdefault(dst.obj, {})[self.coords(dst.obj, dst.off) + dst.path + k[len(pre):]] = v

    def strip(self, n):
        while n["kind"] in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "CXXConstructExpr") or n["kind"] == "ImplicitCastExpr" and n["castKind"] in ("NoOp", "ConstructorConversion"):
            if len(n.get("inner", [])) != 1:
                break
            n = n["inner"][0]
        return n

    def init_array(self, lv, t, init, env):
        dims = arr_dims(t)
        n = 1
        for d in dims:
            n *= d
        et = t
        for _ in dims:
            et = pointee(et)
        vals = []

        def collect(x):
            if x["kind"] == "InitListExpr":
                inner = x.get("array_filler")
                items = x.get("inner", [])
                if inner is not None:
                    items = inner
                for y in items:
                    if y["kind"] == "ImplicitValueInitExpr":
                        vals.append(None)
                    else:
                        collect(y)
                d = arr_dims(qt(x)) if is_arr(qt(x)) else []
                return d
            vals.append(self.expr(x, env))

        def fill(x, tt):
            sub = pointee(tt)
            size = arr_dims(tt)[0]
            start = len(vals)
            items = [y for y in (x.get("array_filler") or x.get("inner", []))] if x["kind"] == "InitListExpr" else None
            if items is None:
                raise Unsupported("array initialiser")
            for y in items:
                if y["kind"] == "ImplicitValueInitExpr":
                    continue
                if is_arr(sub):
                    fill(y, sub)
                else:
                    vals.append(self.expr(y, env))
            want = start + size * units(sub)
            while len(vals) < want:
                vals.append(None)
        while init["kind"] in ("ExprWithCleanups", "ParenExpr") and len(init.get("inner", [])) == 1:
            init = init["inner"][0]
        fill(init, t)
        for i in range(n):
            v = vals[i]
            if v is None:
                v = (FLOAT if self.mode == "safe" else P.of(0)) if is_float(et) else (False if is_bool(et) else (NULL if is_ptr(et) else P.of(0)))
            self.setlv(LV(lv.obj, i, (), et), v)

    def vector(self, d, t, init, env):
        et = clean(re.search(r"vector<([^,>]*)", t).group(1))
        o = Obj(d["name"], [0], None, et, uid=self.uid(d["name"]))
        o.vector = True
        lv = LV(o, 0, (), clean(t))
        env[d["id"]] = lv
        if init is not None:
            i = self.strip(init)
            args = [x for x in i.get("inner", []) if x["kind"] != "CXXDefaultArgExpr"] if i["kind"] == "CXXConstructExpr" else None
            if args is None:
                raise Unsupported("vector initialiser")
            if args:
                n = self.expr(args[0], env)
                self.resize(o, n, self.expr(args[1], env) if len(args) > 1 else None)

    def resize(self, o, n, v=None):
        o.dims, o.ghosts = self.split_dims(n)
        if o.elem in self.prog.records or v is not None and not isinstance(v, P):
            o.init = None
        else:
            z = v if v is not None else (False if is_bool(o.elem) else P.of(0))
            o.init = (lambda *k: FLOAT) if self.mode == "safe" and is_float(o.elem) else (lambda *k: z)

    def split_dims(self, n):
        """Shape of an allocation of n elements."""
        n = P.of(n)
        if n.const() is not None:
            return [n], [None]
        if len(n.m) != 1:
            return [n], [None]
        (k, c), = n.m.items()
        parts = []
        for a, e in k:
            if e != 1:
                return [n], [None]
            parts.append((self.dims.get(a.name, (50, None))[0], P.atom(a), self.dims.get(a.name, (50, None))[1]))
        parts.sort(key=lambda t: t[0])
        d, g = [p[1] for p in parts], [p[2] for p in parts]
        if c != 1:
            d.append(P.of(c))
            g.append(None)
        return d, g

    def cond(self, n, env):
        return self.ctx.branch(self.tobool(self.expr(n, env)))

    def tobool(self, v):
        if v is True or v is False or isinstance(v, tuple):
            return v
        if isinstance(v, P):
            return cmp("!=", v, 0)
        if v is NULL:
            return False
        if isinstance(v, Ptr):
            return True
        if v is FLOAT:
            return self.nondet()
        raise Unsupported(f"condition on {v!r}")

    def nondet(self):
        self.ctx.nfresh += 1
        return ("b", atom("var", f"nd~{self.ctx.fprefix}{self.ctx.nfresh}", (), "B"))

    def s_IfStmt(self, n, env):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.stmt(inner.pop(0), env)
        if n.get("hasVar"):
            raise Unsupported("if with declaration")
        c, rest = inner[0], inner[1:]
        if self.cond(c, env):
            self.stmt(rest[0], env)
        elif len(rest) > 1:
            self.stmt(rest[1], env)

    def s_ReturnStmt(self, n, env):
        inner = n.get("inner", [])
        raise Ret(self.expr(inner[0], env) if inner else None)

    def s_BreakStmt(self, n, env):
        raise Break

    def s_ContinueStmt(self, n, env):
        raise Continue

    def s_ForStmt(self, n, env):
        init, _, c, inc, body = (n["inner"] + [{}] * 5)[:5]
        if init.get("kind"):
            self.stmt(init, env)
        from .loops import for_loop
        for_loop(self, n, c if c.get("kind") else None, inc if inc.get("kind") else None, body, env)

    def s_DvIteration(self, n, env):
        """The body of a loop, where its continue statements jump to, and the increments that follow."""
        try:
            self.stmt(n["inner"][0], env)
        except Continue:
            pass
        for x in n["inner"][1:]:
            self.expr(x, env)

    def s_WhileStmt(self, n, env):
        from .loops import for_loop
        for_loop(self, n, n["inner"][0], None, n["inner"][-1], env)

    def s_DoStmt(self, n, env):
        body, c = n["inner"]
        try:
            self.stmt(body, env)
        except Continue:
            pass
        except Break:
            return
        from .loops import for_loop
        for_loop(self, n, c, None, body, env)

    # ---------------------------------------------------------- lvalues
    def lvalue(self, n, env):
        k = n["kind"]
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            return self.lvalue(n["inner"][0], env)
        if k == "DeclRefExpr":
            i = n["referencedDecl"]["id"]
            if i in env:
                lv = env[i]
                return lv
            raise Unsupported("global variable " + n["referencedDecl"].get("name", "?"))
        if k == "ArraySubscriptExpr":
            a, b = n["inner"]
            base, idx = (a, b) if is_ptr(qt(a)) or is_arr(qt(a)) else (b, a)
            p = self.expr(base, env)
            i = self.expr(idx, env)
            if p is NULL or not isinstance(p, Ptr):
                if p is NULL:
                    self.ctx.report.fail(f"{self.ctx.name}: no null pointer is dereferenced", self.where())
                    raise Infeasible
                raise Unsupported(f"subscript of {p!r}")
            return LV(p.obj, p.off + self.num(i) * units(clean(qt(n))), p.path, clean(qt(n)))
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.expr(n["inner"][0], env)
            if p is NULL:
                self.ctx.report.fail(f"{self.ctx.name}: no null pointer is dereferenced", self.where())
                raise Infeasible
            return LV(p.obj, p.off, p.path, clean(qt(n)))
        if k == "UnaryOperator" and n["opcode"] in ("++", "--") and not n.get("isPostfix"):
            self.expr(n, env)
            return self.lvalue(n["inner"][0], env)
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["opcode"].endswith("=") and n["opcode"] not in ("==", "<=", ">=", "!="):
            self.expr(n, env)
            return self.lvalue(n["inner"][0], env)
        if k == "MemberExpr":
            if n.get("isArrow"):
                p = self.expr(n["inner"][0], env)
                return LV(p.obj, p.off, p.path + (n["name"],), clean(qt(n)))
            b = self.lvalue(n["inner"][0], env)
            return LV(b.obj, b.off, b.path + (n["name"],), clean(qt(n)))
        if k == "ConditionalOperator":
            c, a, b = n["inner"]
            return self.lvalue(a if self.cond(c, env) else b, env)
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr") and n["castKind"] in ("NoOp", "LValueBitCast"):
            return self.lvalue(n["inner"][0], env)
        if k == "CXXOperatorCallExpr":
            op = self.callee(n)[1]
            if op == "operator[]":
                b = self.lvalue(n["inner"][1], env)
                i = self.num(self.expr(n["inner"][2], env))
                return LV(b.obj, b.off + i, (), b.obj.elem)
        if k in ("CallExpr", "CXXMemberCallExpr"):
            v = self.expr_call(n, env, want_lv=True)
            if isinstance(v, LV):
                return v
            t = Obj("tmp", [], None, clean(qt(n)), uid=self.uid("tmp"))
            lv = LV(t, 0, (), clean(qt(n)))
            self.setlv(lv, v)
            return lv
        # temporary
        v = self.expr(n, env)
        t = Obj("tmp", [], None, clean(qt(n)), uid=self.uid("tmp"))
        lv = LV(t, 0, (), clean(qt(n)))
        self.setlv(lv, v)
        return lv

    # ---------------------------------------------------------- expressions
    def num(self, v):
        if isinstance(v, P):
            return v
        if v is True or v is False:
            return P.of(int(v))
        if isinstance(v, tuple):
            return P.of(1) if self.ctx.branch(v) else P.of(0)
        if v is FLOAT:
            return v
        if isinstance(v, (int, Fraction)):
            return P.of(v)
        raise Unsupported(f"number expected, got {v!r}")

    def expr(self, n, env):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported(f"expression {k} at {self.where()}")
        return m(n, env)

    def e_ParenExpr(self, n, env):
        return self.expr(n["inner"][0], env)

    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def e_IntegerLiteral(self, n, env):
        return P.of(int(n["value"]))

    def e_CharacterLiteral(self, n, env):
        return P.of(int(n["value"]))

    def e_FloatingLiteral(self, n, env):
        if self.mode == "safe":
            return FLOAT
        return P.of(Fraction(n["value"]) if "." in n["value"] or "e" in n["value"].lower() else Fraction(int(n["value"])))

    def e_CXXBoolLiteralExpr(self, n, env):
        return bool(n["value"])

    def e_StringLiteral(self, n, env):
        return Opaque("string")

    def e_GNUNullExpr(self, n, env):
        return NULL

    e_CXXNullPtrLiteralExpr = e_GNUNullExpr

    def e_ImplicitValueInitExpr(self, n, env):
        t = qt(n)
        return (FLOAT if self.mode == "safe" else P.of(0)) if is_float(t) else (False if is_bool(t) else P.of(0))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_DeclRefExpr(self, n, env):
        d = n["referencedDecl"]
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return Opaque("fn " + d.get("name", ""))
        return self.lvalue(n, env)

    def e_ArraySubscriptExpr(self, n, env):
        return self.lvalue(n, env)

    e_MemberExpr = e_ArraySubscriptExpr

    def e_CXXDefaultArgExpr(self, n, env):
        raise Unsupported("default argument")

    def e_CXXThrowExpr(self, n, env):
        raise Throw

    def e_CXXDeleteExpr(self, n, env):
        self.expr(n["inner"][0], env)
        return None

    def e_CXXNewExpr(self, n, env):
        t = pointee(qt(n))
        inner = n.get("inner", [])
        if n.get("isArray"):
            size = self.expr(inner[0], env)
            d, g = self.split_dims(size)
            z = len(inner) > 1 and inner[1]["kind"] in ("ImplicitValueInitExpr", "InitListExpr")
            o = Obj("allocated array", d, None, t, g, uid=self.uid("new"))
            if z:
                o.init = lambda *k: P.of(0)
            return Ptr(o)
        o = Obj("new", [], None, t, uid=self.uid("new"))
        return Ptr(o)

    def e_CXXStaticCastExpr(self, n, env):
        return self.cast(n, env)

    e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXStaticCastExpr

    def e_ImplicitCastExpr(self, n, env):
        return self.cast(n, env)

    def cast(self, n, env):
        ck = n["castKind"]
        x = n["inner"][0]
        if ck == "LValueToRValue":
            lv = self.lvalue(x, env)
            return self.load(lv)
        if ck in ("ArrayToPointerDecay",):
            if x["kind"] == "StringLiteral":
                return Opaque("string")
            lv = self.lvalue(x, env)
            return Ptr(lv.obj, lv.off, lv.path)
        v = self.expr(x, env)
        if isinstance(v, LV) and ck not in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion", "UserDefinedConversion", "ToVoid", "FunctionToPointerDecay"):
            v = self.load(v)
        if ck in ("NoOp", "FunctionToPointerDecay", "BitCast", "ToVoid", "ConstructorConversion", "DerivedToBase"):
            return v
        if ck == "NullToPointer":
            return NULL
        if ck in ("IntegralToFloating",):
            return FLOAT if self.mode == "safe" else self.num(v)
        if ck == "FloatingCast":
            return self.single(v) if clean(qt(n)) == "float" else v
        if ck == "FloatingToIntegral":
            return self.toint(v, qt(n))
        if ck == "IntegralCast":
            return self.intcast(self.num(v), qt(n), n)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.tobool(v)
        if ck == "BooleanToSignedIntegral":
            return self.num(v)
        raise Unsupported("cast " + ck)

    def single(self, v):
        """Rounding to single precision is not neglected: nothing is known about its result, but for constants."""
        if v is FLOAT or not isinstance(v, P):
            return v
        c = v.const()
        if c is not None and float(c) == c and struct.unpack("f", struct.pack("f", float(c)))[0] == float(c):
            return v
        return app("single", v)

    def toint(self, v, t):
        if v is FLOAT:
            return self.ctx.fresh("cast", "I")
        if v.is_int():
            self.in_range(v, t)
            return v
        # truncation towards zero
        if self.ctx.branch(cmp(">=", v, 0)):
            r = floor(v)
        else:
            r = ceil(v)
        self.in_range(r, t)
        return r

    def in_range(self, v, t):
        t = unref(t)
        b = INTS.get(t, 32)
        lo, hi = (0, 2 ** b - 1) if "unsigned" in t or t.startswith("size") else (-2 ** (b - 1), 2 ** (b - 1) - 1)
        c = v.const()
        if c is not None:
            if lo <= c <= hi:
                return
        if self.tolerant or self.mode == "safe" or not getattr(self, "check_casts", False):
            return
        ok = self.ctx.valid(band(cmp(">=", v, lo), cmp("<=", v, hi)))
        self.ctx.report.add(f"{self.ctx.name}: conversions to {t} are in range", ok, "z3", 0, None if ok else f"{v} at {self.where()}")

    def intcast(self, v, t, n):
        tt = unref(t)
        src = unref(qt(n["inner"][0]))
        if ("unsigned" in tt or tt.startswith("size")) and not ("unsigned" in src or src.startswith("size")):
            c = v.const()
            if c is not None:
                if c < 0:
                    return P.of(c + 2 ** INTS.get(tt, 64))
                return v
            if not self.tolerant and not self.ctx.valid(cmp(">=", v, 0)):
                # wraps: value is some non negative integer
                w = self.ctx.fresh("wrap", "I")
                self.ctx.assume(cmp(">=", w, 0))
                if self.ctx.branch(cmp(">=", v, 0)):
                    return v
                return w
            return v
        if INTS.get(tt, 32) < INTS.get(src, 32):
            self.in_range(v, tt)
            if self.mode == "safe" and not self.tolerant:
                b = INTS[tt]
                lo, hi = -2 ** (b - 1), 2 ** (b - 1) - 1
                if not self.ctx.valid(band(cmp(">=", v, lo), cmp("<=", v, hi))):
                    w = self.ctx.fresh("narrow", "I")
                    self.ctx.assume(band(cmp(">=", w, lo), cmp("<=", w, hi)))
                    return w
        return v

    def e_UnaryOperator(self, n, env):
        op = n["opcode"]
        x = n["inner"][0]
        if op == "&":
            lv = self.lvalue(x, env)
            return Ptr(lv.obj, lv.off, lv.path)
        if op == "*":
            return self.lvalue(n, env)
        if op in ("++", "--"):
            lv = self.lvalue(x, env)
            v = self.load(lv)
            d = 1 if op == "++" else -1
            if isinstance(v, Ptr):
                w = Ptr(v.obj, v.off + d * units(pointee(lv.t)), v.path)
            elif v is FLOAT:
                w = FLOAT
            else:
                w = self.num(v) + d
            self.setlv(lv, w)
            return v if n.get("isPostfix") else lv
        v = self.rv(x, env)
        if op == "-":
            return FLOAT if v is FLOAT else -self.num(v)
        if op == "+":
            return v
        if op == "!":
            b = self.tobool(v)
            return bnot(b)
        raise Unsupported("unary " + op)

    def rv(self, n, env):
        v = self.expr(n, env)
        return self.load(v) if isinstance(v, LV) and n["kind"] not in ("ImplicitCastExpr",) else (self.load(v) if isinstance(v, LV) else v)

    def e_BinaryOperator(self, n, env):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            v = self.rv(b, env)
            lv = self.lvalue(a, env)
            if clean(qt(a)) in self.prog.records:
                raise Unsupported("struct assignment")
            if is_bool(lv.t) and isinstance(v, P):
                v = self.tobool(v)
            if is_int(lv.t) and (v is True or v is False or isinstance(v, tuple)):
                v = self.num(v)
            self.setlv(lv, v)
            return lv
        if op == ",":
            self.expr(a, env)
            return self.expr(b, env)
        if op == "&&":
            if not self.cond(a, env):
                return False
            return self.tobool(self.rv(b, env))
        if op == "||":
            if self.cond(a, env):
                return True
            return self.tobool(self.rv(b, env))
        x, y = self.rv(a, env), self.rv(b, env)
        return self.binop(op, x, y, n, qt(a), qt(b))

    def binop(self, op, x, y, n, ta, tb):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if x is NULL or y is NULL or isinstance(x, Ptr) or isinstance(y, Ptr):
                if (x is NULL) != (y is NULL):
                    r = False
                elif x is NULL:
                    r = True
                elif x.obj == y.obj and x.path == y.path:
                    return cmp(op, x.off, y.off)
                else:
                    r = False
                return r if op == "==" else not r
            if isinstance(x, (bool, tuple)) and isinstance(y, (bool, tuple)) and op in ("==", "!="):
                r = self.ctx.branch(x) == self.ctx.branch(y)
                return r if op == "==" else not r
            x, y = self.num(x), self.num(y)
            if x is FLOAT or y is FLOAT:
                if getattr(self, "nan", False):
                    return op == "!="
                return self.nondet()
            self.no_sum(x, y)
            return cmp(op, x, y)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == "-" and isinstance(y, Ptr):
                if x.obj != y.obj:
                    raise Unsupported("difference of pointers")
                return x.off - y.off
            if isinstance(y, Ptr):
                x, y, ta = y, x, tb
            u = units(pointee(ta))
            d = self.num(y) * u
            return Ptr(x.obj, x.off + (d if op == "+" else -d), x.path)
        x, y = self.num(x), self.num(y)
        if x is FLOAT or y is FLOAT:
            return FLOAT
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            if is_float(qt(n)):
                self.no_sum(y)
                if y.const() == 0:
                    return self.ctx.fresh("div0")
                self.nonzero(y)
                return x / y
            cx, cy = x.const(), y.const()
            if cx is not None and cy:
                q = abs(cx) // abs(cy)
                return P.of(q if (cx < 0) == (cy < 0) else -q)
            if cy and all(isinstance(v, int) and v % cy == 0 for v in x.m.values()):
                return P({k: v // cy for k, v in x.m.items()})
            raise Unsupported("integer division")
        if op == "%":
            cx, cy = x.const(), y.const()
            if cx is not None and cy:
                r = abs(cx) % abs(cy)
                return P.of(-r if cx < 0 else r)
            if cy:
                r = P({k: v % cy for k, v in x.m.items() if v % cy})
                if r.const() is not None and self.ctx.valid(cmp(">=", x, 0)):
                    return P.of(r.const() % cy)
            raise Unsupported("integer remainder")
        if op in ("&", "|", "^", "<<", ">>"):
            cx, cy = x.const(), y.const()
            if cx is not None and cy is not None:
                return P.of({"&": cx & cy, "|": cx | cy, "^": cx ^ cy, "<<": cx << cy if op == "<<" else 0, ">>": cx >> cy if op == ">>" else 0}[op])
            if cx in (0, 1) and op == "&":
                pass
            raise Unsupported("bit operation")
        raise Unsupported("operator " + op)

    def nonzero(self, y):
        pass

    def no_sum(self, *ps):
        for p in ps:
            if isinstance(p, P):
                for a in p.atoms():
                    if a.name.startswith("eps_"):
                        raise Unsupported(f"a condition or divisor depends on a partial sum at {self.where()}")

    def e_CompoundAssignOperator(self, n, env):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        y = self.rv(b, env)
        lv = self.lvalue(a, env)
        x = self.load(lv)
        if isinstance(x, P) and x.is_int() and is_int(lv.t) and is_float(qt(b)) and op in "*/":
            raise Unsupported("mixed compound assignment")
        if op in ("|", "&") and (isinstance(x, (bool, tuple)) or isinstance(y, (bool, tuple))):
            bx, by = self.tobool(x), self.tobool(y)
            v = bor(bx, by) if op == "|" else band(bx, by)
            if is_int(lv.t):
                v = self.num(v)
        else:
            m = dict(n)
            m["type"] = n.get("computeResultType", n["type"])
            v = self.binop(op, x, y, m, qt(a), qt(b))
            if is_int(lv.t) and isinstance(v, P) and not v.is_int():
                v = self.toint(v, lv.t)
        self.setlv(lv, v)
        return lv

    def e_ConditionalOperator(self, n, env):
        c, a, b = n["inner"]
        r = a if self.cond(c, env) else b
        return self.expr(r, env)

    def e_InitListExpr(self, n, env):
        if len(n.get("inner", [])) == 1:
            return self.expr(n["inner"][0], env)
        raise Unsupported("initialiser list")

    def e_CXXConstructExpr(self, n, env):
        inner = [x for x in n.get("inner", []) if x["kind"] != "CXXDefaultArgExpr"]
        if len(inner) == 1:
            return self.expr(inner[0], env)
        return Opaque("construct " + qt(n))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_UnaryExprOrTypeTraitExpr(self, n, env):
        t = n.get("argType", {}).get("qualType", "")
        if n.get("name") == "sizeof" and clean(t) == "double":
            return P.of(8)
        if n.get("name") == "sizeof" and clean(t) in ("int", "float", "unsigned int"):
            return P.of(4)
        raise Unsupported("sizeof " + t)

    # ---------------------------------------------------------- calls
    def callee(self, n):
        x = n["inner"][0]
        while x["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            x = x["inner"][0]
        if x["kind"] == "DeclRefExpr":
            d = x["referencedDecl"]
            return d["id"], d.get("name", "")
        if x["kind"] == "MemberExpr":
            return x.get("referencedMemberDecl"), x["name"]
        return None, x["kind"]

    def e_CallExpr(self, n, env):
        return self.expr_call(n, env)

    def e_CXXMemberCallExpr(self, n, env):
        return self.expr_call(n, env)

    def e_CXXOperatorCallExpr(self, n, env):
        _, name = self.callee(n)
        if name == "operator[]":
            return self.lvalue(n, env)
        if name == "operator<<":
            return Opaque("stream")
        raise Unsupported("operator call " + name)

    def expr_call(self, n, env, want_lv=False):
        fid, name = self.callee(n)
        argn = n["inner"][1:]
        f = self.prog.by_id.get(fid)
        if isinstance(f, Fn) and f.body is None:
            c = [g for g in self.prog.fns.get(f.name, []) if g.type == f.type]
            f = c[-1] if c else None
        if isinstance(f, Fn):
            args = []
            for i, (p, a) in enumerate(zip(f.params, argn)):
                if a["kind"] == "CXXDefaultArgExpr":
                    d = next(x for x in p["inner"])
                    args.append(self.expr(d, env))
                elif is_ref(qt(p)):
                    args.append(self.lvalue(a, env))
                elif clean(qt(p)) in self.prog.records:
                    args.append(self.lvalue(self.strip(a), env))
                else:
                    v = self.rv(a, env)
                    if is_int(qt(p)) and isinstance(v, P):
                        pass
                    args.append(v)
            for p, a in zip(f.params, args):
                if is_int(qt(p)) and isinstance(a, P):
                    self.in_range(a, qt(p))
            c = self.contracts.get(name)
            if c is not None:
                return c(self, args, f)
            self.ctx.report.functions.setdefault(name, "inlined")
            return self.call(f, args)
        return self.builtin(name, n, argn, env)

    def builtin(self, name, n, argn, env):
        if name in ("floor", "ceil", "sqrt", "abs", "fabs", "round", "floorf", "ceilf", "sqrtf", "isfinite", "isnan", "isinf"):
            x = self.rv(argn[0], env)
            if name in ("isfinite", "isnan", "isinf"):
                return self.nondet() if x is FLOAT else name == "isfinite"
            if x is FLOAT:
                return FLOAT
            x = self.num(x)
            self.no_sum(x)
            if name.startswith("floor"):
                return floor(x)
            if name.startswith("ceil"):
                return ceil(x)
            if name.startswith("sqrt"):
                return sqrt(x)
            if name in ("abs", "fabs"):
                return x if self.ctx.branch(cmp(">=", x, 0)) else -x
        if name in ("min", "max", "fmin", "fmax"):
            x, y = self.rv(argn[0], env), self.rv(argn[1], env)
            if x is FLOAT or y is FLOAT:
                return x if getattr(self, "nan", False) and not name.startswith("f") else FLOAT
            self.no_sum(x, y)
            lt = self.ctx.branch(cmp("<", y, x))
            if name.endswith("min"):
                return y if lt else x
            return x if lt else (y if self.ctx.branch(cmp("<", x, y)) else x)
        if name == "pow":
            x, y = self.rv(argn[0], env), self.rv(argn[1], env)
            if x is FLOAT or y is FLOAT:
                return FLOAT
            if isinstance(y.const(), int):
                return x ** y.const()
        if name == "infinity":
            return FLOAT if self.mode == "safe" else var("INFINITY")
        if name in ("max", "lowest", "epsilon"):
            return FLOAT if self.mode == "safe" else self.ctx.fresh(name)
        if name == "swap":
            a, b = self.lvalue(argn[0], env), self.lvalue(argn[1], env)
            x, y = self.load(a), self.load(b)
            self.setlv(a, y)
            self.setlv(b, x)
            return None
        if name in ("fill", "fill_n", "memcpy", "copy", "memset", "sort", "stable_sort", "copy_n"):
            return self.bulk(name, n, argn, env)
        if name in ("resize", "size", "begin", "end", "data", "push_back", "reserve", "clear", "empty", "assign"):
            m = n["inner"][0]
            b = self.lvalue(m["inner"][0], env)
            if name == "resize":
                self.resize(b.obj, self.num(self.rv(argn[0], env)), self.rv(argn[1], env) if len(argn) > 1 else None)
                return None
            total = P.of(1)
            for d in b.obj.dims:
                total = total * d
            if name == "size":
                return total
            if name in ("begin", "data"):
                return Ptr(b.obj, b.off, b.path)
            if name == "end":
                return Ptr(b.obj, b.off + total, b.path)
        raise Unsupported(f"call of {name} at {self.where()}")

    def bulk(self, name, n, argn, env):
        if name in ("sort", "stable_sort"):
            args = [self.rv(a, env) for a in argn[:2]]
            self.ctx.report.trusted.add(f"the standard function {name}")
            self.events.append(("sort", args[0], args[1], n))
            h = self.contracts.get("#sort")
            if h:
                h(self, args, self.comparator(argn[2]) if len(argn) > 2 else None)
            return None
        args = [self.rv(a, env) for a in argn]
        self.ctx.report.trusted.add(f"the standard function {name}")
        if name == "fill":
            p, q, v = args
            self.setrange(p, q.off - p.off, lambda k: v)
        elif name == "fill_n":
            p, m, v = args
            self.setrange(p, m, lambda k: v)
        elif name == "memset":
            p, v, m = args
            if self.num(v).const() != 0:
                raise Unsupported("memset")
            self.setrange(p, self.scaled(m, 8), lambda k: P.of(0))
        elif name == "memcpy":
            d, s, m = args
            cnt = self.scaled(m, 8)
            self.copyrange(d, s, cnt)
        elif name == "copy":
            s, e, d = args
            self.copyrange(d, s, e.off - s.off)
        elif name == "copy_n":
            s, m, d = args
            self.copyrange(d, s, m)
        return None

    def comparator(self, n):
        """The function called by a function object or a lambda without capture."""
        n = self.strip(n)
        if n["kind"] == "LambdaExpr":
            for x in n["inner"]:
                if x["kind"] == "CXXRecordDecl":
                    for m in x.get("inner", []):
                        if m["kind"] == "CXXMethodDecl" and m.get("name") == "operator()":
                            self.prog.add(m)
                            return self.prog.by_id[m["id"]]
        l = self.prog.fns.get(clean(qt(n)) + "::operator()")
        if not l and n["kind"] == "DeclRefExpr":
            f = self.prog.by_id.get(n["referencedDecl"]["id"])
            l = [f] if isinstance(f, Fn) else None
        return l[-1] if l else None

    def scaled(self, m, k):
        if all(isinstance(v, int) and v % k == 0 for v in m.m.values()):
            return P({q: v // k for q, v in m.m.items()})
        raise Unsupported("byte count")

    def whole(self, p, cnt):
        total = P.of(1)
        for d in p.obj.dims:
            total = total * d
        ok = p.off.const() == 0 and equal(total, cnt)
        if not ok:
            ok2 = self.ctx.valid(band(cmp(">=", p.off, 0), cmp("<=", p.off + cnt, total)))
            if not ok2:
                self.oblige_bounds(p.obj, False, p.off + cnt)
                if self.mode == "safe":
                    return
            elif self.mode != "safe":
                raise Unsupported("partial fill or copy")
        elif self.mode == "safe":
            self.oblige_bounds(p.obj, True, p.off)

    def part(self, name, t, cnt, *args):
        """Executes the copy or fill as a loop if it may cover a part of an array only."""
        for p in args:
            if isinstance(p, Ptr):
                total = P.of(1)
                for d in p.obj.dims:
                    total = total * d
                if p.off.const() != 0 or not equal(total, cnt):
                    break
        else:
            return False
        if not t.elem == "double":
            raise Unsupported("partial fill or copy")
        self.call(self.prog.fns[name][-1], args)
        return True

    def setrange(self, p, cnt, f):
        if self.part("dv_fill", p.obj, cnt, p, cnt, f(())):
            return
        self.whole(p, cnt)
        for l in self.logs:
            l["bulk"].append(p.obj)
        self.store[p.obj] = {}
        p.obj.init = (lambda *k: FLOAT) if self.mode == "safe" else (lambda *k: f(k))
        self.events.append(("fill", p.obj))

    def copyrange(self, d, s, cnt):
        if self.part("dv_copy", d.obj, cnt, s, cnt, d):
            return
        self.whole(d, cnt)
        self.whole(s, cnt)
        for l in self.logs:
            l["bulk"].append(d.obj)
        if self.mode == "safe":
            return
        if [x.m for x in d.obj.dims] != [x.m for x in s.obj.dims]:
            raise Unsupported("copy between arrays of different shapes")
        src, old = s.obj, dict(self.store.get(s.obj, {}))
        if old:
            g = {k: v for k, v in old.items()}
            d.obj.init = lambda *k: g[k] if k in g else src.init(*k)
        else:
            d.obj.init = src.init
        self.store[d.obj] = {}
        self.events.append(("copy", d.obj, s.obj))
