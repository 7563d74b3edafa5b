"""The Cython module of /repo as Python text, translated mechanically on every run.

What the translation does, token by token:
- comments, cimports and the extern declarations are dropped (the structure fields and the
  exception clauses of the extern declarations are kept as data);
- `cdef T x = e` becomes `x = COERCE_("T", e)`, `cdef T x` of a structure becomes a structure with
  undefined fields, other declarations without value are dropped (using them is an error);
  later assignments to a typed name are coerced as well;
- typed arguments `T x = d` become `x = d` with `x = COERCE_("T", x)` first in the body;
- `<T> e` becomes `CAST_("T") ** e`, `&x` becomes `x` (structures are passed by reference,
  copied when an argument or a variable has the structure as type);
- `NULL` becomes `NULL_`; `with nogil` and `with gil` become `if True`;
- in functions without bounds checks, a constant subscript `e[k]` becomes `INDEX_(e, k)`;
- an attribute `x.a` of a typed array becomes `ATTR_(x, "a")` (None has no attributes in C).
Everything else is Python, executed as it is."""
import ast
import io
import tokenize

QM = "?"
MODIFIERS = ("inline", "public", "readonly", "api")
SCALARS = ("int", "long", "double", "float", "bool", "bint", "size_t", "char", "short", "unsigned", "signed", "void", "object", "Py_ssize_t", "uint32_t", "uint8_t")


class Bad(Exception):
    pass


def logical_lines(src):
    """[(depth, [tokens])]"""
    out, cur, depth = [], [], 0
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type == tokenize.INDENT:
            depth += 1
        elif t.type == tokenize.DEDENT:
            depth -= 1
        elif t.type == tokenize.NEWLINE:
            if cur:
                out.append((depth, cur))
            cur = []
        elif t.type in (tokenize.COMMENT, tokenize.NL, tokenize.ENDMARKER):
            continue
        elif t.string == ";":
            if cur:
                out.append((depth, cur))
            cur = []
        else:
            cur.append(t.string)
    if cur:
        out.append((depth, cur))
    return out


def split(toks, sep=","):
    out, cur, d = [], [], 0
    for t in toks:
        if t in ("(", "[", "{"):
            d += 1
        if t in (")", "]", "}"):
            d -= 1
        if t == sep and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def typename(toks):
    return " ".join(toks).replace(" . ", ".").replace(" *", "*").replace("[ ", "[").replace(" ]", "]").replace(" ,", ",").replace(" [", "[")


def take_type(toks, structs):
    """(type, rest) of 'T x ...'."""
    k = 0
    if not toks[k].isidentifier():
        raise Bad(" ".join(toks))
    if toks[0] in ("unsigned", "signed", "long", "short", "const"):
        while k < len(toks) and toks[k] in SCALARS + ("const",):
            k += 1
    else:
        k = 1
        while k + 1 < len(toks) and toks[k] == ".":
            k += 2
        if k < len(toks) and toks[k] == "[":
            d = 0
            while True:
                d += (toks[k] == "[") - (toks[k] == "]")
                k += 1
                if d == 0:
                    break
    while k < len(toks) and toks[k] in ("*", "**"):
        k += 1
    return typename(toks[:k]), toks[k:]


def expr(toks, structs):
    """The tokens of an expression in Python."""
    out, k = [], 0
    while k < len(toks):
        t = toks[k]
        prev = out[-1] if out else None
        unary = prev is None or not (prev[-1].isalnum() or prev[-1] in "_)]}\"'") or prev in ("return", "and", "or", "not", "in", "is", "if", "else", "assert", "raise", "yield", "lambda")
        if t == "<" and unary and ">" in toks[k:]:
            e = toks.index(">", k)
            ty = toks[k + 1:e]
            if ty and ty[0].isidentifier():
                out.append(f'CAST_({typename([x for x in ty if x != QM])!r})')
                out.append("**")
                k = e + 1
                continue
        if t == "&" and unary:
            k += 1
            continue
        out.append("NULL_" if t == "NULL" else t)
        k += 1
    return " ".join(out)


def params(toks, structs):
    """('x, y = 0', [(x, T)])"""
    out, typed = [], []
    for p in split(toks):
        e = top(p)
        head, dflt = (p, None) if e is None else (p[:e], p[e + 1:])
        if head and head[0] in ("*", "**", "/"):
            out.append("".join(head))
            continue
        if len(head) > 1 and ":" not in head:
            ty, rest = take_type(head, structs)
            rest = [x for x in rest if x not in ("not", "None", "or")] if len(rest) > 1 else rest
            if len(rest) != 1:
                raise Bad("parameter " + " ".join(head))
            name = rest[0]
            typed.append((name, ty + (" not None" if "not" in head else "")))
        else:
            name = head[0]
        out.append(name if dflt is None else f"{name} = {expr(dflt, structs)}")
    return ", ".join(out), typed


def top(p):
    d = 0
    for k, t in enumerate(p):
        d += (t in "([{") - (t in ")]}")
        if t == "=" and d == 0:
            return k
    return None


def translate(src):
    """(Python text, data)"""
    lines = logical_lines(src)
    data = dict(structs={}, externs={}, directives=[l.strip() for l in src.splitlines() if l.strip().startswith("# cython:")], types={}, functions=[])
    structs = data["structs"]
    out, k, cdefblock = [], 0, []
    fn = [(-1, None)]   # enclosing functions by depth
    while k < len(lines):
        d, t = lines[k]
        while cdefblock and d <= cdefblock[-1]:
            cdefblock.pop()
        while fn[-1][0] >= d:
            fn.pop()
        ind = "\t" * d
        if cdefblock:
            t = ["cdef"] + t
        k += 1
        if t[0] == "cimport" or (t[0] == "from" and "cimport" in t) or t[0] == "ctypedef":
            out.append(ind + "pass")
            continue
        if t[0] == "cdef" and t[1] == "extern":
            out.append(ind + "pass")
            struct = None
            while k < len(lines) and lines[k][0] > d:
                dd, u = lines[k]
                k += 1
                if u[:2] in (["ctypedef", "struct"], ["cdef", "struct"]) or u[0] == "struct":
                    struct = (dd, u[-2] if u[-1] == ":" else u[-1])
                    structs[struct[1]] = {}
                elif struct and dd > struct[0]:
                    ty, rest = take_type(u, structs)
                    for r in split(rest):
                        structs[struct[1]][r[0]] = ty
                elif "(" in u:
                    if u[0] in ("cdef",):
                        u = u[1:]
                    ty, rest = take_type(u, structs)
                    close = len(rest) - 1 - rest[::-1].index(")")
                    data["externs"][rest[0]] = dict(params=len(split(rest[2:close])), clause=" ".join(rest[close + 1:]))
            continue
        if t[0] in ("cdef", "cpdef") and t[1:] == [":"]:
            cdefblock.append(d)
            out.append(ind + "if True :")
            continue
        if t[0] in ("def", "cdef", "cpdef") and "(" in t and t[-1] == ":" and "class" not in t and (top(t) is None or top(t) > t.index("(")):
            u = [x for x in t[1:-1] if x not in MODIFIERS]
            close = len(u) - 1 - u[::-1].index(")")
            tail = u[close + 1:]
            op = u.index("(")
            name = u[op - 1]
            ps, typed = params(u[op + 1:close], structs)
            data["functions"].append(name)
            data["types"].setdefault(name, {}).update(dict(typed))
            out.append(f"{ind}def {name} ( {ps} ) :")
            out.append(f"{ind}\tpass")
            for n, ty in typed:
                out.append(f'{ind}\t{n} = COERCE_({ty!r}, {n})')
            if tail and tail[:1] not in (["->"], ["nogil"], ["noexcept"], ["except"]):
                raise Bad(" ".join(tail))
            fn.append((d, name))
            continue
        if t[0] in ("cdef", "cpdef"):
            u = [x for x in t[1:] if x not in MODIFIERS]
            if u[0] in ("class", "struct", "enum", "union"):
                raise Bad(" ".join(u[:3]))
            base, rest = take_type(u, structs)
            out.append(ind + "pass")
            types = data["types"].setdefault(fn[-1][1], {})
            for n, decl in enumerate(split(rest)):
                ty = base if n == 0 else base.rstrip("*")
                while decl[0] == "*":
                    ty, decl = ty + "*", decl[1:]
                if len(decl) > 1 and decl[1] == "[":
                    raise Bad("array variable")
                types[decl[0]] = ty
                if len(decl) > 1 and decl[1] == "=":
                    out.append(f'{ind}{decl[0]} = {expr(decl[2:], structs)}')
                elif ty in structs:
                    out.append(f'{ind}{decl[0]} = STRUCT_({ty!r})')
            continue
        if t[0] == "with" and t[1] in ("nogil", "gil"):
            out.append(ind + "if True :")
            continue
        out.append(ind + expr(t, structs))
    return "\n".join(out) + "\n", data


def unchecked(fn, data, what="boundscheck"):
    for dec in fn.decorator_list:
        if isinstance(dec, ast.Call) and ast.unparse(dec.func) == "cython." + what and len(dec.args) == 1:
            return not dec.args[0].value
    return any(what + "=False" in d.replace(" ", "") for d in data["directives"])


class Rewrite(ast.NodeTransformer):
    def __init__(self, data):
        self.data, self.fn = data, None

    def visit_FunctionDef(self, n):
        old = self.fn
        self.fn = (self.data["types"].get(n.name, {}), unchecked(n, self.data))
        n.body = [self.visit(s) for s in n.body]
        n.decorator_list = [d for d in n.decorator_list if not ast.unparse(d).startswith("cython.")]
        self.fn = old
        return n

    def ctype(self, e):
        return self.fn[0].get(e.id) if self.fn and isinstance(e, ast.Name) else None

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1:
            ty = self.ctype(n.targets[0])
            v = n.value
            if ty and not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("COERCE_", "STRUCT_")):
                n.value = ast.Call(ast.Name("COERCE_", ast.Load()), [ast.Constant(ty), v], [])
        elif any(self.ctype(t) for t in n.targets):
            raise Bad("multiple assignment to a typed name")
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        ty = self.ctype(n.target)
        if ty:
            load = ast.Name(n.target.id, ast.Load())
            return ast.Assign([n.target], ast.Call(ast.Name("COERCE_", ast.Load()), [ast.Constant(ty), ast.BinOp(load, n.op, n.value)], []))
        return n

    def visit_Attribute(self, n):
        ty = self.ctype(n.value)
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and ty and ty.startswith("np.ndarray"):
            return ast.Call(ast.Name("ATTR_", ast.Load()), [n.value, ast.Constant(n.attr)], [])
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if self.fn and self.fn[1] and isinstance(n.ctx, ast.Load):
            k = n.slice
            if isinstance(k, ast.Constant) and isinstance(k.value, int) or isinstance(k, ast.UnaryOp) and isinstance(k.operand, ast.Constant):
                return ast.Call(ast.Name("INDEX_", ast.Load()), [n.value, k], [])
        return n
