"""
Yield points inside of climate_indices: its modules are compiled with a call to a function of
the simulator before every statement of every function.  (This does what sys.settrace() would
do, but on PyPy that slows down everything else, too.)  The statements themselves and their
line numbers remain as they are.
"""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import core

NUMERIC = {"compute", "lmoments", "indices", "eto", "palmer"}


class Adder(ast.NodeTransformer):
    def __init__(self, filename):
        self.depth = 0
        self.filename = filename

    def call(self, stmt):
        node = ast.Expr(
            ast.Call(
                ast.Name("__sim_tick__", ast.Load()),
                [ast.Constant(self.filename), ast.Constant(stmt.lineno)],
                [],
            )
        )
        ast.copy_location(node, stmt)
        for x in ast.walk(node):
            ast.copy_location(x, stmt)
        return node

    def body(self, stmts, skip_doc=False):
        out = []
        for i, s in enumerate(stmts):
            s = self.visit(s)
            doc = (
                skip_doc
                and i == 0
                and isinstance(s, ast.Expr)
                and isinstance(s.value, ast.Constant)
                and isinstance(s.value.value, str)
            )
            plain = isinstance(s, (ast.Global, ast.Nonlocal))
            if self.depth and not doc and not plain:
                out.append(self.call(s))
            out.append(s)
        return out

    def generic_visit(self, node):
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(node, field, None)
            if isinstance(stmts, list) and stmts and isinstance(stmts[0], ast.stmt):
                setattr(node, field, self.body(stmts))
        for h in getattr(node, "handlers", ()) or ():
            h.body = self.body(h.body)
        return node

    def _function(self, node):
        self.depth += 1
        node.body = self.body(node.body, skip_doc=True)
        self.depth -= 1
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        node.body = self.body(node.body, skip_doc=True)
        self.depth = depth
        return node


def tick(filename, lineno):
    ctx = core.CUR
    if ctx is not None and not ctx.in_sim:
        ctx.line(filename, lineno)


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = Adder(os.path.basename(path)).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        # never use (or write) compiled files
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__["__sim_tick__"] = tick
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, src, numeric):
        self.dir = os.path.join(src, "climate_indices")
        self.numeric = numeric

    def find_spec(self, fullname, path, target=None):
        parts = fullname.split(".")
        if parts[0] != "climate_indices":
            return None
        if len(parts) == 1:
            file = os.path.join(self.dir, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, file, loader=Loader(fullname, file), submodule_search_locations=[self.dir]
            )
        base = os.path.join(self.dir, *parts[1:])
        if os.path.isdir(base):
            file = os.path.join(base, "__init__.py")
            if not os.path.exists(file):
                return None
            return importlib.util.spec_from_file_location(
                fullname, file, loader=Loader(fullname, file), submodule_search_locations=[base]
            )
        file = base + ".py"
        if not os.path.exists(file):
            return None
        if parts[-1] in NUMERIC and not self.numeric:
            loader = Plain(fullname, file)
        else:
            loader = Loader(fullname, file)
        return importlib.util.spec_from_file_location(fullname, file, loader=loader)


class Plain(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def install(src, numeric):
    sys.meta_path.insert(0, Finder(src, numeric))
