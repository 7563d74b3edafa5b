"""C26: deodr/obj.py.

The file is a sequence of an unknown number of lines. The outermost loops of the functions are
treated by induction: extraction rewrites `while C: B` (or `for x in I: B`) into
`while True: <head>; if not C: break; B`, where <head> replaces the variables carried by the
loop by an arbitrary state satisfying the invariant, and when it is reached again compares them
with the invariant for one more line.  The invariants are "the number of vertex (face, all) lines read so
far", "the elements of the vertex (face) lines read so far", "not modified" and "the line just read":
which one is proposed for a variable is read off an execution on a small file, and then proved by induction.

Lines are Python strings whose numbers are opaque tokens: float() and int() of a token are
symbols, writing a number produces a token."""
import ast
import re
import types
from .pyver import *
from .pyload import load
from .sums import Base

PATH = "deodr/obj.py"
V, F = B("NV"), B("NF")


class Done(Exception):
    """The path ends at the head of the loop."""


class Rewrite(ast.NodeTransformer):
    """Loop heads."""

    def __init__(self):
        self.n, self.names, self.inside = 0, None, False

    def visit_FunctionDef(self, n):
        old = self.names
        self.names = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in n.args.args})
        self.generic_visit(n)
        self.names = old
        return n

    def head(self):
        k = self.n
        self.n += 1
        src = f"__st = dv_.head({k}, locals())\n" + "".join(f"if {v!r} in __st: {v} = __st[{v!r}]\n" for v in self.names)
        return k, ast.parse(src).body

    def visit_While(self, n):
        if self.names is None or n.orelse:
            return n
        k, h = self.head()
        test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])
        return ast.copy_location(ast.While(test=ast.Constant(True), body=h + [test] + n.body, orelse=[]), n)

    def visit_For(self, n):
        if self.names is None or n.orelse:
            return n
        k, h = self.head()
        pre = ast.parse(f"__it{k} = dv_.iter({k}, None)").body
        pre[0].value.args[1] = n.iter
        nxt = ast.parse(f"try:\n __x = dv_.next({k}, __it{k})\nexcept StopIteration:\n break").body
        asg = ast.Assign(targets=[n.target], value=ast.Name("__x", ast.Load()))
        return pre + [ast.copy_location(ast.While(test=ast.Constant(True), body=h + nxt + [asg] + n.body, orelse=[]), n)]


class Percent(ast.NodeTransformer):
    """Formatting by %."""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name("dv_", ast.Load()), "percent", ast.Load()), [n.left, n.right], []), n)
        return n


def percent(text, args):
    """Formatting by %, in terms of format()."""
    args = list(args) if isinstance(args, tuple) else [args]

    def one(m):
        if m[0] == "%%":
            return "%"
        x = args.pop(0)
        return str(x) if m[2] == "s" else format(x, m[1] + m[2].replace("i", "d"))
    r = re.sub(r"%(?:%|([-+ 0]*\d*(?:\.\d+)?)([sdifFeEgG]))", one, text)
    if args:
        raise TypeError("not all arguments converted during string formatting")
    return r


class Tokens:
    """Strings for symbolic numbers."""

    def __init__(self):
        self.t = {}

    def new(self, text, value):
        self.t[text] = value
        return text


class Seq(list):
    """A list known by what it contains: the elements of the lines of a kind."""

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def _no(self, *a, **k):
        raise Unsupported("use of a list of unknown length")

    __iter__ = __getitem__ = __setitem__ = __add__ = __iadd__ = insert = extend = pop = remove = sort = reverse = __contains__ = _no

    def __len__(self):
        raise Unsupported("length of a list of unknown length")

    def __bool__(self):
        raise Unsupported("length of a list of unknown length")


def tail(s):
    return [list.__getitem__(s, i) for i in range(list.__len__(s))]


class Count(A):
    """A number of lines."""

    def _add(self, o):
        return self + o

    def _sub(self, o):
        return self - o

    __iadd__, __isub__ = _add, _sub


def count(v):
    a = Count.__new__(Count)
    a.__dict__.update(scalar(v, "i").__dict__)
    return a


class Poison:
    """Value from a previous iteration on which nothing is known."""


NEXT = "<the next line>\n"


class File:
    def __init__(self, dv):
        self.dv = dv

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return self

    def __next__(self):
        x = self.readline()
        if x == "":
            raise StopIteration
        return x

    def readline(self):
        return self.dv.readline()

    def write(self, s):
        self.dv.written.append(s)

    def close(self):
        pass

    def __getattr__(self, k):
        raise Unsupported("file." + k)


class Trace:
    """Execution on a small file: proposes the invariants."""

    def __init__(self, tokens, events):
        self.tokens, self.queue = tokens, [x for e in events for x in e["lines"]]
        self.ends, n = [], 0
        for e in events:
            n += len(e["lines"])
            self.ends.append((n, e["kind"]))
        self.read, self.heads, self.last, self.depth = 0, {}, None, 0
        self.written = []

    def readline(self):
        self.read += 1
        self.last = self.queue[self.read - 1] if self.read <= len(self.queue) else ""
        return self.last

    def counts(self, ahead=0):
        done = [k for n, k in self.ends if n <= min(self.read - ahead, len(self.queue))]
        return dict(v=done.count("v"), f=done.count("f"), n=len(done))

    def head(self, k, loc):
        loc = {v: (len(x) if isinstance(x, list) else x, type(x)) for v, x in loc.items() if not v.startswith("__")}
        pend = [v for v, (x, t) in loc.items() if t is str and x is self.last and self.last is not None]
        self.heads.setdefault(k, []).append((loc, pend, self.counts(), self.counts(1)))
        return {}

    def iter(self, k, it):
        return iter(it)

    def next(self, k, it):
        return next(it)


def invariants(tr):
    """Loop -> variable -> kind of value."""
    out = {}
    for k, l in tr.heads.items():
        if len(l) < 3:
            continue
        pend = set(l[0][1]).intersection(*[x[1] for x in l])
        inv = {}
        for v in l[0][0]:
            xs = [x[0].get(v, (None, None)) for x in l]
            cs = [x[3 if pend else 2] for x in l]
            t = xs[0][1]
            if v in pend:
                inv[v] = ("line",)
            elif t is list:
                for kind in "vf":
                    if all(x[0] == c[kind] for x, c in zip(xs, cs)):
                        inv[v] = ("list", kind)
            elif t is int and any(x[0] != xs[0][0] for x in xs):
                for kind in "vfn":
                    if len({x[0] - c[kind] for x, c in zip(xs, cs) if isinstance(x[0], int)}) == 1:
                        inv.setdefault(v, ("count", kind, xs[0][0] - cs[0][kind]))
            elif all(x[0] is xs[0][0] for x in xs):
                inv[v] = ("same",)
            inv.setdefault(v, ("unknown",))
        out[k] = inv
    return out


class Induct:
    """One arbitrary line."""

    percent = staticmethod(percent)

    def __init__(self, p, inv, event, tokens):
        self.p, self.inv, self.event, self.tokens = p, inv, event, tokens
        self.arrived, self.queue, self.written, self.reads = {}, [], [], 0
        self.state, self.steps = {}, 0

    def readline(self):
        if self.queue:
            self.reads += 1
            return self.queue.pop(0)
        self.reads += 1
        return NEXT

    def expected(self, kind, n):
        c = dict(v=var("nv", "I"), f=var("nf", "I"), n=var("nl", "I"))[kind]
        return c + (n if self.event["kind"] == kind or kind == "n" and n else 0)

    def head(self, k, loc):
        inv = self.inv.get(k)
        if inv is None:
            return {}
        p, st = self.p, {}
        if k not in self.arrived:
            self.arrived[k] = loc
            for v, how in inv.items():
                if v not in loc:
                    continue
                x = loc[v]
                if how[0] == "count":
                    p.eq(f"{v} before the first line", asA(x), asA(how[2]))
                    st[v] = count(dict(v=var("nv", "I"), f=var("nf", "I"), n=var("nl", "I"))[how[1]] + how[2])
                elif how[0] == "list":
                    p.true(f"{v} before the first line", isinstance(x, list) and len(x) == 0)
                    st[v] = Seq(how[1])
                elif how[0] == "line":
                    p.true(f"{v} before the first line", x is NEXT)
                    st[v] = None
                elif how[0] == "unknown":
                    st[v] = Poison()
            self.queue = list(self.event["lines"])
            for v in st:
                if st[v] is None:
                    st[v] = self.readline()
            self.state = st
            return st
        for v, how in inv.items():
            if v not in self.state and how[0] == "same":
                p.true(f"{v} after another line", v not in self.arrived[k] or loc[v] is self.arrived[k][v])
            if v not in self.state:
                continue
            x = loc[v]
            if how[0] == "count":
                p.eq(f"{v} after another line", asA(x), scalar(self.expected(how[1], 1) + how[2]))
            elif how[0] == "list":
                ok = x is self.state[v]
                p.true(f"{v} after another line is extended", ok)
                new_ = tail(x) if ok else []
                p.true(f"elements added to {v}", len(new_) == (1 if self.event["kind"] == how[1] else 0))
                if len(new_) == 1 and self.event["kind"] == how[1]:
                    p.eq(f"element added to {v}", asA(new_[0]), self.event["value"])
            elif how[0] == "line":
                p.true(f"{v} is the next line", x is NEXT)
        p.true("the line is read to its end", not self.queue)
        raise Done

    def iter(self, k, it):
        return iter(it)

    def next(self, k, it):
        return next(it)


def events():
    """Kinds of lines, with the tokens in their numbers."""
    out = []

    def v(n, fmt, **k):
        out.append(dict(kind="v", name=n, fmt=fmt, **k))

    def f(n, fmt, corners, **k):
        out.append(dict(kind="f", name=n, fmt=fmt, corners=corners, **k))
    v("vertex", "v {0} {1} {2}\n")
    v("vertex with spaces", "v  {0}   {1} {2}  \n")
    v("vertex at the end of the file", "v {0} {1} {2}")
    for i in range(3):
        s = ["v", " {0}", " {1}", " {2}\n"]
        s[i + 1] = " \\\n" + s[i + 1]
        v(f"vertex continued after {i} numbers", "".join(s))
    v("vertex continued twice", "v {0} \\\n{1} \\\n {2}\n")
    forms = dict(plain="{0}", texture="{0}/{1}", normal="{0}//{2}", both="{0}/{1}/{2}")
    for n in forms:
        f(f"face, {n}", "f {0} {1} {2}\n", [n] * 3)
    f("face, mixed", "f {0} {1} {2}\n", ["both", "plain", "normal"])
    f("face, mixed again", "f {0} {1} {2}\n", ["texture", "normal", "plain"])
    f("face with spaces", "f  {0}  {1}   {2} \n", ["plain"] * 3)
    f("face at the end of the file", "f {0} {1} {2}", ["normal"] * 3)
    for i in range(3):
        s = ["f", " {0}", " {1}", " {2}\n"]
        s[i + 1] = " \\\n" + s[i + 1]
        f(f"face continued after {i} corners", "".join(s), ["both"] * 3)
    f("face continued twice", "f {0} \\\n{1} \\\n{2}\n", ["plain"] * 3)
    for n, s in (("normal", "vn {0} {1} {2}\n"), ("texture coordinates", "vt {0} {1}\n"), ("three texture coordinates", "vt {0} {1} {2}\n"), ("comment", "# a comment\n"), ("comment like a vertex", "#v 1 2 3\n"), ("empty", "\n"),
                 ("spaces", "   \n"), ("object", "o v\n"), ("group", "g f\n"), ("smoothing", "s off\n"), ("material", "usemtl f 1 2 3\n"), ("library", "mtllib v.mtl\n"), ("continued comment", "# a \\\nv 1 2 3\n"),
                 ("continued normal", "vn {0} \\\n{1} {2}\n")):
        out.append(dict(kind="o", name=n, fmt=s))
    return out


def instance(e, tokens, tag=""):
    """The lines of an event; its numbers are symbols."""
    e = dict(e)
    x = [tokens.new(f"0.{tag}{k}5", var(f"x{tag}{k}")) for k in range(3)]
    if e["kind"] == "f":
        nv = var("nv", "I")
        corner, want = [], []
        for k in range(3):
            i = var(f"i{tag}{k}", "I")
            form = dict(plain="{0}", texture="{0}/{1}", normal="{0}//{2}", both="{0}/{1}/{2}")[e["corners"][k]]
            corner.append(form.format(tokens.new(f"{tag}9{k}1", i), tokens.new(f"{tag}9{k}2", var(f"t{tag}{k}", "I")), tokens.new(f"{tag}9{k}3", var(f"n{tag}{k}", "I"))))
            want.append(ind(cmp("<", 0, i)) * (i - 1) + ind(cmp("<", i, 0)) * (nv + i))
            e.setdefault("ids", []).append(i)
        text = e["fmt"].format(*corner)
        e["value"] = new((3,), lambda t: want[t[0]], "i")
    else:
        text = e["fmt"].format(*x)
        if e["kind"] == "v":
            e["value"] = asA([var(f"x{tag}{k}") for k in range(3)])
    parts = re.split(r"(?<=\n)", text)
    e["lines"] = [q for q in parts if q]
    return e


def module(tokens, dv, opened):
    def num_of(cls):
        def f(x=0, *a):
            if isinstance(x, str) and x.strip() in tokens.t:
                v = tokens.t[x.strip()]
                if cls == "i" and not v.is_int():
                    raise ValueError("invalid literal for int()")
                return count(v) if cls == "i" else scalar(v)
            return (nps.sint if cls == "i" else nps.sfloat)(x, *a)
        return f

    def open_(name, mode="r", *a, **k):
        opened.append((name, mode))
        return File(dv)

    def stacked(g):
        def f(x, *a, **k):
            if isinstance(x, Seq):
                if tail(x):
                    raise Unsupported("stack inside of the loop")
                return symbol("vertices", V, 3) if x.kind == "v" else symbol("faces", F, 3, dtype="i")
            return g(x, *a, **k)
        return f
    def len_(x):
        if isinstance(x, Seq):
            return count(var("n" + x.kind, "I") + len(tail(x)))
        return nps.slen(x)

    def range_(*a):
        if len(a) == 1 and isinstance(a[0], B):
            return Rows(a[0])
        return nps.srange(*a)
    names = {k: stacked(getattr(nps.np, k)) for k in ("vstack", "array", "asarray", "stack", "row_stack") if k in nps.np.__dict__}
    np_ = nps.NS("numpy", **{**nps.np.__dict__, **names})
    np_.__dict__["_name"] = "numpy"
    return load(PATH, rewrite=lambda t: Rewrite().visit(Percent().visit(t)), np=np_, open=open_, len=len_, range=range_, float=num_of("f"), int=num_of("i"), dv_=dv)


def v_read(rep):
    evs = events()
    pick = [e for n in ("vertex", "normal", "vertex", "face, plain", "comment", "vertex with spaces", "face, both", "vertex", "vertex", "face, normal") for e in evs if e["name"] == n]
    p = Py(rep, "read_obj")
    inv = {}

    def propose(p):
        tk = Tokens()
        seq = []
        for n, e in enumerate(pick):
            i = instance(e, tk, f"{n}7")
            for k in ("x", "i", "t", "n"):
                pass
            for t in list(tk.t):   # positive numbers
                if tk.t[t].is_int() and tk.t[t].const() is None:
                    tk.t[t] = P.of(1)
            seq.append(i)
        tr = Trace(tk, seq)
        opened = []
        m = module(tk, tr, opened)
        m.read_obj("name.obj")
        p.true("the file is read", opened == [("name.obj", "r")] or opened == [("name.obj", "rt")])
        inv.update(invariants(tr))
        p.true("one loop over the lines", len([1 for i in inv.values() if any(h[0] == "list" for h in i.values())]) == 1, str(inv))
    p.run(propose)

    def one(e, p):
        tk = Tokens()
        for c in ("nv", "nf", "nl"):
            p.c.assume(cmp("<=", 0, var(c, "I")))
        i = instance(e, tk) if e else dict(kind="end", name="end of the file", lines=[""])
        for x in i.get("ids", ()):
            p.c.assume(bnot(cmp("==", x, 0)))
        keep = {k: v for k, v in inv.items() if any(h[0] == "list" for h in v.values())}
        dv = Induct(p, keep, i, tk)
        m = module(tk, dv, [])
        try:
            r = m.read_obj("name.obj")
        except Done:
            p.true("the loop goes on", e is not None)
            return
        p.true("only the end of the file ends the loop", e is None)
        if e is None:
            f, v = r
            p.eq("faces", f, symbol("faces", F, 3, dtype="i"))
            p.eq("vertices", v, symbol("vertices", V, 3))
    for e in evs + [None]:
        p = Py(rep, f"read_obj, {e['name'] if e else 'end of the file'}")
        p.run(lambda p: one(e, p))
    p.use(PATH, "read_obj")


class Rows:
    """Every row of an array."""

    def __init__(self, dim):
        self.dims = (dim,)

    def __getitem__(self, i):
        return i


class Write(Induct):
    """An arbitrary iteration of the loops over vertices and faces."""

    def __init__(self, p, run):
        self.p, self.run, self.written, self.arrived = p, run, [], set()
        self.rows, self.loops = {}, 0

    def readline(self):
        raise Unsupported("reading")

    def head(self, k, loc):
        if k not in self.rows:
            return {}
        if k in self.arrived:
            raise Done
        self.arrived.add(k)
        self.before = len(self.written)
        return {}

    def iter(self, k, it):
        if isinstance(it, (A, Rows)) and isinstance(it.dims[0], B):
            self.rows[k] = it
            return it
        self.rows.pop(k, None)
        return iter(it)

    def next(self, k, it):
        if not isinstance(it, (A, Rows)):
            return next(it)
        self.loops += 1
        self.p.loops.append((it, len(self.written)))
        if self.loops == self.run:
            return it[scalar(var("row", "I"), "i")]
        raise StopIteration


def v_write(rep):
    p = Py(rep, "save_obj")

    def run(which, p):
        p.loops = []
        tk, opened = {}, []

        def fmt(a, spec):
            t = f"<{len(tk)}>"
            tk[t] = (num(a.item()), spec, a.buf.dtype)
            return t
        x, f = symbol("vertices", V, 3), symbol("faces", F, 3, dtype="i")
        row = var("row", "I")
        nps.AXIOMS["faces"] = lambda at: [band(cmp("<=", 0, P.atom(at)), cmp("<", P.atom(at), V.base.size))]
        p.c.assume(cmp("<=", 0, row))
        dv = Write(p, which)
        m = module(Tokens(), dv, opened)
        nps.FORMAT[0] = fmt
        try:
            m.save_obj("name.obj", x, f)
            p.true("every row is written", which == 0)
        except Done:
            pass
        finally:
            nps.FORMAT[0] = None
        p.true("the file is written", opened in ([("name.obj", "w")], [("name.obj", "wt")]))
        text = "".join(dv.written)
        p.unchanged("arguments", vertices=x, faces=f)
        if which == 0:
            p.true("only comments beside the vertices and the faces", all(not l.strip() or l.startswith("#") for l in text.split("\n")))
            p.true("a loop over the vertices, then a loop over the faces", len(p.loops) == 2 and nps.same_dim(p.loops[0][0].dims[0], V) and nps.same_dim(p.loops[1][0].dims[0], F))
            return
        line = "".join(dv.written[p.loops[-1][1]:])
        it = line.split()
        p.true("one line for each row", line.endswith("\n") and line.count("\n") == 1 and len(it) == 4 and all(t in tk for t in it[1:]) and it[0] == "vf"[which - 1], repr(line))
        if len(it) != 4 or not all(t in tk for t in it[1:]):
            return
        for k in range(3):
            v, spec, d = tk[it[k + 1]]
            if which == 1:
                p.zero("coordinates of the vertex", v - num(x.at(row, k)))
                mm = re.fullmatch(r"[-+ ]?0?\d*(?:\.(\d+))?([fFeEgGrs]?)", spec)
                dig, kind = (int(mm[1]) if mm and mm[1] else None), mm[2] if mm else None
                p.true("at least six decimals are printed", mm is not None and (kind in ("f", "F") and (6 if dig is None else dig) >= 6 or kind in ("e", "E", "g", "G") and (dig or 6) >= 16 or kind == "" and dig is None), repr(spec))
            else:
                p.zero("corners of the face, counted from one", v - num(f.at(row, k)) - 1)
                p.true("integers", spec in ("", "d") and d == "i")
    for which, n in ((0, "structure"), (1, "one vertex"), (2, "one face")):
        q = Py(rep, "save_obj, " + n)
        q.run(lambda q: run(which, q))
    p.use(PATH, "save_obj")

