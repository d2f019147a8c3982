"""Import hook: loads the real modules from /repo with builtin operations
routed through ``models`` (AST rewriting; no change to the program logic)."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import engine, models

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOCALL = set(['super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'])
HOOKS = {
    '__sk_call__': models.call, '__sk_mcall__': models.mcall,
    '__sk_mod__': models.sk_mod, '__sk_in__': models.sk_in,
    '__sk_not_in__': models.sk_not_in, '__sk_getitem__': models.sk_getitem,
    '__sk_setitem__': models.sk_setitem, '__sk_fstr__': models.sk_fstr,
    '__sk_fmt__': models.fmt_value, '__sk_reraise__': models.reraise_abort,
    '__sk_enter__': engine.FUNCS.add, '__sk_set__': models.sym_set,
}


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.scope = []

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_FunctionDef(self, node):
        self.scope.append(node.name)
        qn = '%s.%s' % (self.module, '.'.join(self.scope))
        # decorators and defaults are rewritten too (harmless)
        self.generic_visit(node)
        self.scope.pop()
        enter = ast.Expr(ast.Call(name('__sk_enter__'),
                                  [ast.Constant(qn)], []))
        i = 0
        if (node.body and isinstance(node.body[0], ast.Expr)
                and isinstance(node.body[0].value, ast.Constant)
                and isinstance(node.body[0].value.value, str)):
            i = 1
        if i < len(node.body):
            # same line as the statement it precedes (see simloop.Preempt)
            ast.copy_location(enter, node.body[i])
        node.body.insert(i, enter)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in NOCALL or f.id.startswith('__sk_'):
                return node
            return ast.Call(name('__sk_call__'), [f] + node.args,
                            node.keywords)
        if isinstance(f, ast.Attribute):
            if f.attr.startswith('__') and not f.attr.endswith('__'):
                return ast.Call(name('__sk_call__'), [f] + node.args,
                                node.keywords)
            return ast.Call(name('__sk_mcall__'),
                            [f.value, ast.Constant(f.attr)] + node.args,
                            node.keywords)
        return ast.Call(name('__sk_call__'), [f] + node.args, node.keywords)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(name('__sk_mod__'), [node.left, node.right], [])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign([node.target], ast.Call(
                name('__sk_mod__'), [name(node.target.id), node.value], []))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return ast.Call(name('__sk_in__'),
                                [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.Call(name('__sk_not_in__'),
                                [node.left, node.comparators[0]], [])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(
                node.slice, ast.Slice):
            sl = node.slice
            if sl.__class__.__name__ == 'Index':
                sl = sl.value
            elif sl.__class__.__name__ == 'ExtSlice':
                return node
            if isinstance(sl, ast.Constant):
                return node
            return ast.Call(name('__sk_getitem__'), [node.value, sl], [])
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if (len(node.targets) == 1
                and isinstance(node.targets[0], ast.Subscript)
                and not isinstance(node.targets[0].slice, ast.Slice)):
            t = node.targets[0]
            sl = t.slice
            if sl.__class__.__name__ == 'Index':
                sl = sl.value
            if sl.__class__.__name__ == 'ExtSlice':
                return node
            return ast.Expr(ast.Call(name('__sk_setitem__'),
                                     [node.value, t.value, sl], []))
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.Call(name('__sk_set__'), [ast.ListComp(
            node.elt, node.generators)], [])

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.Call(name('__sk_set__'), [ast.List(
            node.elts, ast.Load())], [])

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec
                spec = (self.visit(spec) if spec is not None
                        else ast.Constant(''))
                conv = chr(v.conversion) if v.conversion != -1 else None
                parts.append(ast.Call(name('__sk_fmt__'), [
                    self.visit(v.value), ast.Constant(conv), spec], []))
            else:
                parts.append(self.visit(v))
        return ast.Call(name('__sk_fstr__'), parts, [])

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        t = node.type
        if t is None or (isinstance(t, ast.Name) and t.id == 'BaseException'):
            node.body.insert(0, ast.Expr(ast.Call(
                name('__sk_reraise__'), [], [])))
        return node


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path):
        self.fullname = fullname
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Rewriter(self.fullname).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        module.__dict__.update(HOOKS)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname.startswith('props.'):
            base = VERIF
        elif fullname == 'katcp' or fullname.startswith('katcp.'):
            base = REPO
        else:
            return None
        rel = os.path.join(base, *fullname.split('.'))
        if os.path.isdir(rel):
            p = os.path.join(rel, '__init__.py')
            spec = importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(fullname, p),
                submodule_search_locations=[rel])
            return spec
        p = rel + '.py'
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(fullname, p))
        return None


def install():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.meta_path.insert(0, Finder())


def install_plain():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
