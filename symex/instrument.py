"""AST instrumentation and the import hook that applies it to the code under
test (/repo/md_toc, fpyutils) and to the harness modules.  The source is read
and rewritten on every run; nothing is cached on disk."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import hashlib

from . import rt

RAW_NAMES = {'super', 'locals', 'globals', 'vars', 'dir', 'exec', 'eval', 'compile', '__import__', 'breakpoint', 'input'}


def N(name, ctx=None):
    return ast.Attribute(ast.Name('_symex_rt', ast.Load()), name, ast.Load())


def pure(n):
    """side-effect free expression, cheap to evaluate speculatively"""
    if isinstance(n, (ast.Constant, ast.Name)):
        return True
    if isinstance(n, ast.Attribute):
        return pure(n.value)
    if isinstance(n, ast.Subscript):
        return pure(n.value) and pure(n.slice)
    if isinstance(n, ast.Slice):
        return all(x is None or pure(x) for x in (n.lower, n.upper, n.step))
    if isinstance(n, ast.Compare):
        return pure(n.left) and all(pure(c) for c in n.comparators)
    if isinstance(n, ast.BoolOp):
        return all(pure(v) for v in n.values)
    if isinstance(n, ast.UnaryOp):
        return pure(n.operand)
    if isinstance(n, ast.BinOp):
        return pure(n.left) and pure(n.right)
    if isinstance(n, (ast.Tuple, ast.List)):
        return all(pure(e) for e in n.elts)
    if isinstance(n, ast.Call):
        # string predicates without arguments / simple membership helpers
        if isinstance(n.func, ast.Attribute) and n.func.attr in (
                'isspace', 'isalpha', 'isalnum', 'isdigit', 'startswith', 'endswith', 'isupper', 'islower',
                'isdecimal', 'isascii') and not n.keywords:
            return pure(n.func.value) and all(pure(a) for a in n.args)
        if isinstance(n.func, ast.Name) and n.func.id in ('ord', 'len', 'chr') and not n.keywords:
            return all(pure(a) for a in n.args)
    return False


class T(ast.NodeTransformer):
    def visit_AnnAssign(self, n):
        n.target = self.visit(n.target)
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def _fn(self, n):
        n.args = self.visit(n.args)
        n.body = [self.visit(b) for b in n.body]
        n.body = flat(n.body)
        n.decorator_list = [self.visit(d) if not isinstance(d, ast.Call) else d for d in n.decorator_list]
        return n

    def visit_FunctionDef(self, n):
        return self._fn(n)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_While(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(ast.Call(N('tick'), [], [])))
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(ast.Call(N('tick'), [], [])))
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in RAW_NAMES:
            n.args = [self.visit(a) for a in n.args]
            return n
        self.generic_visit(n)
        return ast.Call(N('call'), [n.func] + n.args, n.keywords)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op, a, b = n.ops[0], n.left, n.comparators[0]
            name = {ast.In: 'in_', ast.NotIn: 'not_in', ast.Is: 'is_', ast.IsNot: 'is_not'}.get(type(op))
            if name in ('is_', 'is_not') and isinstance(b, ast.Constant) and b.value is None:
                return n
            if name:
                return ast.Call(N(name), [a, b], [])
            return n
        if any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in n.ops):
            # a < b in c  ->  evaluated pairwise with walrus temporaries
            vals = []
            left = n.left
            for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
                name = {ast.In: 'in_', ast.NotIn: 'not_in', ast.Is: 'is_', ast.IsNot: 'is_not'}.get(type(op))
                if name:
                    vals.append(ast.Call(N(name), [left, c], []))
                else:
                    vals.append(ast.Compare(left, [op], [c]))
                left = c
            return ast.BoolOp(ast.And(), vals)
        return n

    def visit_BoolOp(self, n):
        ok = all(pure(v) for v in n.values)
        self.generic_visit(n)
        if not ok:
            return n
        lam = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), v) for v in n.values]
        return ast.Call(N('andor'), [ast.Constant(isinstance(n.op, ast.And)), ast.Tuple(lam, ast.Load())], [])

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.Call(N('not_'), [n.operand], [])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.Call(N('mod'), [n.left, n.right], [])
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.Call(N('getitem'), [n.value, slice_expr(n.slice)], [])
        return n

    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.Expr(ast.Call(N('setitem'), [self.visit(t.value), slice_expr(self.visit(t.slice)), n.value], []))
        n.targets = [self.visit(t) for t in n.targets]
        return n

    def visit_AugAssign(self, n):
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Subscript):
            t = n.target
            base = ast.Name('_symex_o', ast.Load())
            key = ast.Name('_symex_k', ast.Load())
            return [
                ast.Assign([ast.Name('_symex_o', ast.Store())], self.visit(t.value)),
                ast.Assign([ast.Name('_symex_k', ast.Store())], slice_expr(self.visit(t.slice))),
                ast.Expr(ast.Call(N('setitem'), [base, key, ast.BinOp(
                    ast.Call(N('getitem'), [ast.Name('_symex_o', ast.Load()), ast.Name('_symex_k', ast.Load())], []),
                    n.op, n.value)], [])),
            ]
        n.target = self.visit(n.target)
        return n

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(ast.Call(N('delitem'), [self.visit(t.value), slice_expr(self.visit(t.slice))], [])))
            else:
                out.append(ast.Delete([self.visit(t)]))
        return out

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                conv = ast.Constant(chr(v.conversion) if v.conversion != -1 else None)
                parts.append(ast.Tuple([self.visit(v.value), conv, spec], ast.Load()))
        return ast.Call(N('fstr'), parts, [])

    def visit_Dict(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.keys):
            return n
        pairs = []
        for k, v in zip(n.keys, n.values):
            pairs.append(ast.Tuple([N('STAR') if k is None else k, v], ast.Load()))
        return ast.Call(N('mkdict'), [ast.List(pairs, ast.Load())], [])

    def visit_Set(self, n):
        self.generic_visit(n)
        if all(isinstance(e, ast.Constant) for e in n.elts):
            return n
        return ast.Call(N('mkset'), [ast.List(n.elts, ast.Load())], [])

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(N('mkset'), [ast.ListComp(n.elt, n.generators)], [])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(N('mkdict'), [ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])

    def visit_MatchValue(self, n):
        return n

    def visit_match_case(self, n):
        if n.guard is not None:
            n.guard = self.visit(n.guard)
        n.body = flat([self.visit(b) for b in n.body])
        return n


def slice_expr(s):
    if isinstance(s, ast.Slice):
        return ast.Call(ast.Name('slice', ast.Load()),
                        [x if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)], [])
    if isinstance(s, ast.Tuple):
        return ast.Tuple([slice_expr(e) for e in s.elts], ast.Load())
    return s


def flat(body):
    out = []
    for b in body:
        if isinstance(b, list):
            out += b
        elif b is not None:
            out.append(b)
    return out


ENCODED = {}     # module name -> (file, number of functions, sha256)


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    nf = sum(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for x in ast.walk(tree))
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    ENCODED[modname] = (filename, nf, hashlib.sha256(src.encode()).hexdigest()[:16])
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path, self.ispkg = path, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        m.__dict__['_symex_rt'] = rt
        m.__dict__[rt.MARK] = True
        exec(transform(src, self.path, m.__name__), m.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots        # package name -> directory that contains it

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        p = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f, pkg = os.path.join(p, '__init__.py'), True
        elif os.path.exists(p + '.py'):
            f, pkg = p + '.py', False
        else:
            return None
        return importlib.util.spec_from_file_location(
            name, f, loader=Loader(f, pkg), submodule_search_locations=[p] if pkg else None)


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
