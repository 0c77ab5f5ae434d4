"""
Import hook: modules of the code under test (and of the harnesses) are parsed
from the current source files, rewritten so that operations on symbolic values
reach rt.py, compiled and executed by CPython.
"""
import ast, sys, os, importlib.abc, importlib.util, hashlib

NOCALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__', 'namedtuple'}


class Transformer (ast.NodeTransformer):
    def __init__ (self, harness=False):
        self.harness = harness

    def rt (self, name, *args):
        return ast.Call (func=ast.Attribute (value=ast.Name (id='__rt__', ctx=ast.Load ()), attr=name, ctx=ast.Load ()), args=list (args), keywords=[])

    # -- annotations are left alone
    def visit_AnnAssign (self, node):
        if node.value is None:
            return node
        t = node.target
        node.value = self.visit (node.value)
        if isinstance (t, ast.Name):
            return node
        return ast.copy_location (ast.Assign (targets=[self.visit (t)], value=node.value), node)

    def visit_arg (self, node):
        node.annotation = None
        return node

    def visit_FunctionDef (self, node):
        node.returns = None
        node.args = self.visit (node.args)
        node.decorator_list = [self.visit (d) for d in node.decorator_list]
        node.body = self.body (node.body)
        if node.name == '__hash__' and self.inclass:
            node.decorator_list.append (ast.Attribute (value=ast.Name (id='__rt__', ctx=ast.Load ()), attr='wraphash', ctx=ast.Load ()))
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    inclass = False

    def body (self, stmts):
        old = self.inclass
        self.inclass = False
        r = []
        for s in stmts:
            x = self.visit (s)
            if isinstance (x, list):
                r.extend (x)
            elif x is not None:
                r.append (x)
        self.inclass = old
        return r

    def visit_ClassDef (self, node):
        sub = {'dict': 'SDict', 'defaultdict': 'SDefaultDict', 'Counter': 'SCounter', 'set': 'SSet', 'OrderedDict': 'SDict'}
        def base (b):
            x = b.value if isinstance (b, ast.Subscript) else b
            if isinstance (x, ast.Name) and x.id in sub:
                return ast.Attribute (value=ast.Name (id='__rt__', ctx=ast.Load ()), attr=sub[x.id], ctx=ast.Load ())
            return b
        node.bases = [base (b) for b in node.bases]
        old = self.inclass
        self.inclass = True
        r = []
        for s in node.body:
            x = self.visit (s)
            self.inclass = True
            r.append (x)
        node.body = r
        self.inclass = old
        node.decorator_list = [self.visit (d) for d in node.decorator_list]
        return node

    def visit_Lambda (self, node):
        node.args = self.visit (node.args)
        old = self.inclass
        self.inclass = False
        node.body = self.visit (node.body)
        self.inclass = old
        return node

    # -- calls
    def visit_Call (self, node):
        if isinstance (node.func, ast.Name) and node.func.id in NOCALL:
            node.args = [self.visit (x) for x in node.args]
            node.keywords = [self.visit (x) for x in node.keywords]
            return node
        if isinstance (node.func, ast.Attribute) and isinstance (node.func.value, ast.Name) and node.func.value.id == '__rt__':
            return node
        self.generic_visit (node)
        return ast.copy_location (ast.Call (
            func=ast.Attribute (value=ast.Name (id='__rt__', ctx=ast.Load ()), attr='call', ctx=ast.Load ()),
            args=[node.func]+node.args, keywords=node.keywords), node)

    def visit_Subscript (self, node):
        self.generic_visit (node)
        if not isinstance (node.ctx, ast.Load):
            return node
        s = node.slice
        if isinstance (s, ast.Slice):
            none = ast.Constant (value=None)
            s = ast.Call (func=ast.Name (id='slice', ctx=ast.Load ()), args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
            s.func = ast.Attribute (value=ast.Name (id='__rt__', ctx=ast.Load ()), attr='slice', ctx=ast.Load ())
        elif isinstance (s, ast.Tuple) and any (isinstance (x, (ast.Slice, ast.Starred)) for x in s.elts):
            return node
        return ast.copy_location (self.rt ('getitem', node.value, s), node)

    # -- comparisons
    cmpmap = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.In: 'contains', ast.NotIn: 'notin', ast.Is: 'is_', ast.IsNot: 'isnot'}

    def visit_Compare (self, node):
        self.generic_visit (node)
        if len (node.ops) == 1:
            n = self.cmpmap.get (type (node.ops[0]))
            if n is None:
                return node
            return ast.copy_location (self.rt (n, node.left, node.comparators[0]), node)
        # chained
        tmp = []
        parts = []
        left = node.left
        ops = list (zip (node.ops, node.comparators))
        if all (self.pure (x) for x in [node.left]+node.comparators):
            for op, right in ops:
                n = self.cmpmap.get (type (op))
                if n is None:
                    parts.append (ast.Compare (left=left, ops=[op], comparators=[right]))
                else:
                    parts.append (self.rt (n, left, right))
                left = right
            r = parts[-1]
            for p in reversed (parts[:-1]):
                r = self.rt ('and_', p, self.lam (r))
            return ast.copy_location (r, node)
        return node

    def lam (self, e):
        return ast.Lambda (args=ast.arguments (posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)

    PURECALLS = {'abs', 'min', 'max', 'len', 'int', 'float', 'bool', 'isinstance', 'eq', 'ne', 'contains', 'notin', 'is_', 'isnot', 'and_', 'or_', 'not_', 'ifexp', 'getitem', 'slice', 'ord'}

    def pure (self, e):
        """ expression without side effects, evaluable speculatively """
        for n in ast.walk (e):
            if isinstance (n, ast.Call):
                f = n.func
                if isinstance (f, ast.Attribute) and isinstance (f.value, ast.Name) and f.value.id == '__rt__':
                    if f.attr == 'call':
                        if not (isinstance (n.args[0], ast.Name) and n.args[0].id in self.PURECALLS):
                            return False
                    elif f.attr not in self.PURECALLS:
                        return False
                elif isinstance (f, ast.Name) and f.id in self.PURECALLS:
                    pass
                else:
                    return False
            elif isinstance (n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Starred)):
                return False
        return True

    def visit_BoolOp (self, node):
        self.generic_visit (node)
        n = 'and_' if isinstance (node.op, ast.And) else 'or_'
        vals = node.values
        # merge the longest pure suffix of operands with its predecessor
        if self.inclass or any (isinstance (x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for v in vals for x in ast.walk (v)):
            return node
        r = vals[-1]
        rpure = self.pure (r)
        out = [r]
        for v in reversed (vals[:-1]):
            if rpure:
                r = self.rt (n, v, self.lam (r))
                rpure = self.pure (v)
            else:
                r = ast.BoolOp (op=node.op, values=[v, r])
                rpure = False
        return ast.copy_location (r, node)

    def visit_BinOp (self, node):
        self.generic_visit (node)
        if isinstance (node.op, ast.Mod):
            return ast.copy_location (self.rt ('mod', node.left, node.right), node)
        return node

    def visit_UnaryOp (self, node):
        self.generic_visit (node)
        if isinstance (node.op, ast.Not):
            return ast.copy_location (self.rt ('not_', node.operand), node)
        return node

    def visit_IfExp (self, node):
        self.generic_visit (node)
        if self.inclass or not (self.pure (node.body) and self.pure (node.orelse)):
            return node
        return ast.copy_location (self.rt ('ifexp', node.test, self.lam (node.body), self.lam (node.orelse)), node)

    # -- displays
    def visit_Dict (self, node):
        self.generic_visit (node)
        els = []
        for k, v in zip (node.keys, node.values):
            els.append (ast.Tuple (elts=[v] if k is None else [k, v], ctx=ast.Load ()))
        return ast.copy_location (self.rt ('mkdict', ast.List (elts=els, ctx=ast.Load ())), node)

    def visit_Set (self, node):
        self.generic_visit (node)
        return ast.copy_location (self.rt ('mkset', ast.List (elts=node.elts, ctx=ast.Load ())), node)

    def visit_SetComp (self, node):
        self.generic_visit (node)
        return ast.copy_location (self.rt ('mkset', ast.GeneratorExp (elt=node.elt, generators=node.generators)), node)

    def visit_DictComp (self, node):
        self.generic_visit (node)
        return ast.copy_location (self.rt ('dictcomp', ast.GeneratorExp (
            elt=ast.Tuple (elts=[node.key, node.value], ctx=ast.Load ()), generators=node.generators)), node)

    # -- f-strings
    def visit_JoinedStr (self, node):
        parts = []
        for v in node.values:
            if isinstance (v, ast.Constant):
                parts.append (v)
            else:
                spec = ast.Constant (value='')
                if v.format_spec is not None:
                    spec = self.visit_JoinedStr (v.format_spec)
                parts.append (ast.Tuple (elts=[self.visit (v.value), ast.Constant (value=v.conversion), spec], ctx=ast.Load ()))
        return ast.copy_location (self.rt ('fstr', *parts), node)


coverage_files = {}


def transform (source, filename, harness=False):
    tree = ast.parse (source, filename)
    tree = Transformer (harness).visit (tree)
    ast.fix_missing_locations (tree)
    return compile (tree, filename, 'exec')


class Loader (importlib.abc.Loader):
    def __init__ (self, fullname, path, ispkg):
        self.fullname, self.path, self.ispkg = fullname, path, ispkg

    def create_module (self, spec):
        return None

    def get_data (self, path):
        with open (path, 'rb') as fd:
            return fd.read ()

    def get_filename (self, name=None):
        return self.path

    def exec_module (self, module):
        from . import rt
        with open (self.path, encoding='utf-8') as fd:
            src = fd.read ()
        coverage_files[self.path] = hashlib.sha256 (src.encode ()).hexdigest ()
        rt.instrumented.add (self.fullname)
        module.__dict__['__rt__'] = rt
        code = transform (src, self.path)
        exec (code, module.__dict__)


class Finder (importlib.abc.MetaPathFinder):
    def __init__ (self, roots):
        # roots: {top level package or module name: directory containing it}
        self.roots = roots

    def find_spec (self, name, path, target=None):
        top = name.split ('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join (self.roots[top], *name.split ('.'))
        if os.path.isdir (base) and os.path.exists (os.path.join (base, '__init__.py')):
            p = os.path.join (base, '__init__.py')
            return importlib.util.spec_from_file_location (name, p, loader=Loader (name, p, True), submodule_search_locations=[base])
        if os.path.exists (base + '.py'):
            p = base + '.py'
            return importlib.util.spec_from_file_location (name, p, loader=Loader (name, p, False))
        return None


def install (roots):
    sys.meta_path.insert (0, Finder (roots))
