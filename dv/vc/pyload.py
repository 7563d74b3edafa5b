"""The Python modules of /repo, executed as they are on symbolic arrays.

Extraction: the source file is parsed on every run, its import statements are dropped (the
imported names are given by the caller: other modules of /repo loaded the same way, or the
assumed contracts of the dependencies), type annotations are not evaluated, and the rest is
executed unchanged.  An assertion that may fail ends the path like in Python.
"""
import ast
import dataclasses
import os
import types
import typing
from . import nps
from .ctx import Unsupported

REPO = os.environ.get("DV_REPO", "/repo")


class Drop(ast.NodeTransformer):
    def __init__(self):
        self.functions = []
        self.prefix = []
        self.in_class = False

    def visit_Import(self, n):
        return ast.copy_location(ast.Pass(), n)

    visit_ImportFrom = visit_Import

    def visit_FunctionDef(self, n):
        self.functions.append(".".join(self.prefix + [n.name]))
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        n.decorator_list = [d for d in n.decorator_list if not (isinstance(d, ast.Name) and d.id == "overload")]
        self.prefix.append(n.name)
        old, self.in_class = self.in_class, False
        self.generic_visit(n)
        self.in_class = old
        self.prefix.pop()
        return n

    def visit_ClassDef(self, n):
        self.prefix.append(n.name)
        old, self.in_class = self.in_class, True
        self.generic_visit(n)
        self.in_class = old
        self.prefix.pop()
        return n

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "print":
            return ast.copy_location(ast.Pass(), n)
        self.generic_visit(n)
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if self.in_class:   # the fields of a data class
            n.annotation = ast.copy_location(ast.Constant(0), n.annotation)
            return n
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)


def load(path, rewrite=None, src=None, **names):
    """Namespace of a module executed with the given names instead of its imports."""
    full = os.path.join(REPO, path)
    src = open(full).read() if src is None else src
    tree = ast.parse(src, full)
    d = Drop()
    tree = d.visit(tree)
    if rewrite is not None:
        tree = rewrite(tree)
    tree = ast.fix_missing_locations(tree)
    import copy as _copy
    import warnings as _w
    g = {"__name__": "dv." + path.replace("/", ".").rsplit(".", 1)[0], "__file__": full, "np": nps.np, "copy": _copy, "warnings": _w, "dataclass": dataclasses.dataclass, "field": dataclasses.field, "sparse": nps.sparse,
         "scipy": types.SimpleNamespace(sparse=nps.sparse)}
    for k in ("Any", "Dict", "Iterable", "List", "Optional", "Tuple", "Union", "Callable", "Type"):
        g[k] = getattr(typing, k)
    g["overload"] = lambda f: f
    g["Literal"] = typing.Literal
    g.update(nps.BUILTINS)
    g.update(names)
    exec(compile(tree, full, "exec"), g)
    ns = types.SimpleNamespace(**{k: v for k, v in g.items() if not k.startswith("__")})
    ns.functions_ = [(path, f) for f in d.functions]
    return ns


class Env:
    """Fresh modules of /repo for one path of an execution."""

    def __init__(self):
        self._m = {}

    def get(self, name):
        if name not in self._m:
            self._m[name] = getattr(self, "_" + name)()
        return self._m[name]

    def _tools(self):
        return load("deodr/tools.py")

    def _mesh(self):
        t = self.get("tools")
        return load("deodr/triangulated_mesh.py", cross_backward=t.cross_backward, normalize=t.normalize, normalize_backward=t.normalize_backward, Trimesh=object)

    def _lre(self):
        return load("deodr/laplacian_rigid_energy.py", TriMesh=self.get("mesh").TriMesh)

    def _dr(self, cpp=None):
        m = self.get("mesh")
        return load("deodr/differentiable_renderer.py", ColoredTriMesh=m.ColoredTriMesh, differentiable_renderer_cython=self._m.get("cpp"))
