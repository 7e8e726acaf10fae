"""
Scheduling points inside melodia, at the level of expressions: an import hook adds calls of three functions to the syntax tree of each
module of melodia when it is loaded (in memory; the files are not touched, and nothing else is changed).

    __mc_entry__()      first thing in every function, lambda included
    __mc_stmt__()       before every statement in a function
    __mc_expr__(x)      after every call, attribute and item read, and element of a comprehension; returns x
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import sys

ENTRY, STMT, EXPR = '__mc_entry__', '__mc_stmt__', '__mc_expr__'


def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


class Points(ast.NodeTransformer):
    """Visits functions only; what is executed at import is left alone."""

    def __init__(self):
        self.depth = 0

    def visit(self, node):
        if self.depth == 0 and not isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef, ast.stmt)):
            return node
        return super().visit(node)

    # annotations, decorators, defaults, patterns and type parameters stay as they are
    def function(self, node):
        self.depth += 1
        node.body = self.block(node.body, ast.get_docstring(node, clean=False) is not None)
        self.depth -= 1
        at = 1 if ast.get_docstring(node, clean=False) is not None else 0
        node.body.insert(at, ast.Expr(_call(ENTRY)))
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = function

    def visit_Lambda(self, node):
        node.body = ast.BoolOp(op=ast.Or(), values=[_call(ENTRY), self.visit(node.body)])
        return node

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        node.body = [self.visit(x) for x in node.body]
        self.depth = depth
        return node

    def visit_AnnAssign(self, node):
        if self.depth:
            node.target = self.visit(node.target)
            if node.value is not None:
                node.value = self.visit(node.value)
        return node

    def visit_match_case(self, node):
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        node.body = self.block(node.body)
        return node

    def block(self, body, docstring=False):
        result = []
        for i, x in enumerate(body):
            if not (docstring and i == 0) and not isinstance(x, (ast.Global, ast.Nonlocal)):
                result.append(ast.Expr(_call(STMT)))
            result.append(self.visit(x) if not (docstring and i == 0) else x)
        return result

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if isinstance(old, list):
                if old and isinstance(old[0], ast.stmt):
                    setattr(node, field, self.block(old) if self.depth else [self.visit(x) for x in old])
                else:
                    setattr(node, field, [self.visit(x) if isinstance(x, ast.AST) else x for x in old])
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute):
            node.func.value = self.visit(node.func.value)
        else:
            node.func = self.visit(node.func)
        node.args = [self.visit(x) for x in node.args]
        node.keywords = [self.visit(x) for x in node.keywords]
        return _call(EXPR, node)

    def read(self, node):
        self.generic_visit(node)
        return _call(EXPR, node) if isinstance(node.ctx, ast.Load) else node

    visit_Attribute = visit_Subscript = read

    def comprehension(self, node):
        self.generic_visit(node)
        node.elt = _call(EXPR, node.elt)
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = comprehension


def instrument(source, path):
    tree = Points().visit(ast.parse(source, path))
    return compile(ast.fix_missing_locations(tree), path, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return instrument(self.get_data(path), path)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'melodia' and not fullname.startswith('melodia.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(entry, stmt, expr):
    """To be called before melodia is imported."""
    assert not any(n == 'melodia' or n.startswith('melodia.') for n in sys.modules)
    setattr(builtins, ENTRY, entry)
    setattr(builtins, STMT, stmt)
    setattr(builtins, EXPR, expr)
    sys.meta_path.insert(0, Finder())
