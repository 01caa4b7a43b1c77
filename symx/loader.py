"""Import hook: instruments modules of the code under test (and harnesses)."""
import ast
import importlib.abc
import importlib.util
import os
import sys
import hashlib
from . import builtins_ as B

NOCALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', 'staticmethod', 'classmethod',
          'property', '__import__', 'len', 'id', 'iter', 'next', 'callable'}


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.cls = []

    def mangle(self, name):
        if self.cls and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (self.cls[-1].lstrip('_'), name)
        return name

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(x) for x in n.decorator_list]
        n.bases = [self.visit(x) for x in n.bases]
        n.keywords = [self.visit(x) for x in n.keywords]
        self.cls.append(n.name)
        n.body = [self.visit(x) for x in n.body]
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        # annotations are left alone
        n.decorator_list = [self.visit(x) for x in n.decorator_list]
        a = n.args
        a.defaults = [self.visit(x) for x in a.defaults]
        a.kw_defaults = [self.visit(x) if x is not None else None for x in a.kw_defaults]
        body = []
        for x in n.body:
            r = self.visit(x)
            body.append(r)
        n.body = body
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def _name(self, s):
        return ast.Name(id=s, ctx=ast.Load())

    def visit_Call(self, n):
        f = n.func
        args = [self.visit(x) for x in n.args]
        kws = [self.visit(x) for x in n.keywords]
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                return ast.copy_location(ast.Call(func=f, args=args, keywords=kws), n)
            return ast.copy_location(ast.Call(func=self._name('_sx_callm'), args=[
                self.visit(v), ast.Constant(self.mangle(f.attr))] + args, keywords=kws), n)
        if isinstance(f, ast.Name) and f.id in NOCALL:
            return ast.copy_location(ast.Call(func=f, args=args, keywords=kws), n)
        return ast.copy_location(ast.Call(func=self._name('_sx_call'), args=[self.visit(f)] + args,
                                          keywords=kws), n)

    def visit_Subscript(self, n):
        n.slice = self.visit(n.slice)
        n.value = self.visit(n.value)
        if not isinstance(n.slice, ast.Slice) and not (
                isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int)) and not (
                isinstance(n.slice, ast.UnaryOp)):
            n.value = ast.copy_location(ast.Call(func=self._name('_sx_w'), args=[n.value], keywords=[]), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            fn = '_sx_in' if isinstance(n.ops[0], ast.In) else '_sx_notin'
            return ast.copy_location(ast.Call(func=self._name(fn), args=[n.left, n.comparators[0]],
                                              keywords=[]), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(func=self._name('_sx_mod'), args=[n.left, n.right],
                                              keywords=[]), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign(targets=[n.target], value=ast.Call(
                func=self._name('_sx_mod'),
                args=[ast.Name(id=n.target.id, ctx=ast.Load()), n.value], keywords=[])), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = ast.Constant('') if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Call(func=self._name('_sx_fmtval'), args=[
                    val, ast.Constant(v.conversion), spec], keywords=[]))
        return ast.copy_location(ast.Call(func=self._name('_sx_fstr'), args=parts, keywords=[]), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(k is not None for k in n.keys) and not all(
                isinstance(k, ast.Constant) for k in n.keys):
            return ast.copy_location(ast.Call(func=self._name('_sx_mkdict'), args=[ast.List(
                elts=[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(n.keys, n.values)],
                ctx=ast.Load())], keywords=[]), n)
        return n

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(func=self._name('_sx_mkdict'), args=[ast.ListComp(
            elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)],
            keywords=[]), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(func=self._name('_sx_set'), args=[ast.ListComp(
            elt=n.elt, generators=n.generators)], keywords=[]), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.elts):
            return n
        return ast.copy_location(ast.Call(func=self._name('_sx_set'), args=[ast.List(
            elts=n.elts, ctx=ast.Load())], keywords=[]), n)

    def visit_Try(self, n):
        self.generic_visit(n)
        if n.handlers:
            n.handlers.insert(0, ast.ExceptHandler(type=self._name('_sx_Control'), name=None,
                                                   body=[ast.Raise()]))
        return n


def transform(src, path):
    tree = ast.parse(src, path)
    tree = Tr().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


LOADED = {}      # module name -> (path, sha256 of the source that was encoded)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            raw = f.read()
        LOADED[module.__name__] = (self.path, hashlib.sha256(raw).hexdigest()[:16])
        tree = transform(raw.decode(), self.path)
        code = compile(tree, self.path, 'exec')
        module.__dict__.update(B.HELPERS)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # {top-level package: directory containing it}

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *name.split('.'))
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            if not os.path.exists(init):
                spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
                spec.submodule_search_locations = [base]
                return spec
            return importlib.util.spec_from_file_location(name, init, loader=Loader(init),
                                                          submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=Loader(base + '.py'))
        return None


def install(roots):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
