#!/usr/bin/env python3
""" Mutation testing of the checks: mutate one place of lulua, keep mutants which
pass the existing tests, run the quick checks concerned with the mutated
function in a copy of the repository. Not part of any check.

usage: mutate.py WORKDIR JOBS OUT.jsonl [FILE...]
"""
import ast, copy, glob, json, os, re, shutil, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO = '/repo'
VERIF = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
PY = '/opt/venv/bin/python'

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.LShift: ast.RShift, ast.RShift: ast.LShift}

def mutants (tree):
    """ yields (where, description, apply, undo) """
    def visit (node, path):
        for field, val in ast.iter_fields (node):
            if isinstance (val, ast.AST):
                yield from one (val, path, lambda x, n=node, f=field: setattr (n, f, x))
            elif isinstance (val, list):
                for i, v in enumerate (val):
                    if isinstance (v, ast.AST):
                        yield from one (v, path, lambda x, l=val, i=i: l.__setitem__ (i, x))
    def one (n, path, put):
        if isinstance (n, (ast.FunctionDef, ast.ClassDef)):
            path = path+[n.name]
        # texts of commands and logging
        if isinstance (n, ast.Call) and isinstance (n.func, ast.Attribute) and n.func.attr in ('add_argument', 'ArgumentParser', 'debug', 'info', 'error', 'warning', 'basicConfig', 'add_parser'):
            return
        def m (new, what):
            return ('.'.join (path), n.lineno, what, lambda: put (new), lambda: put (n))
        if path or isinstance (n, (ast.FunctionDef, ast.ClassDef)):
            c = lambda: copy.deepcopy (n)
            if isinstance (n, ast.Compare) and type (n.ops[0]) in CMP:
                x = c (); x.ops[0] = CMP[type (n.ops[0])] (); yield m (x, 'compare')
                if isinstance (n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                    x = c (); x.ops[0] = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}[type (n.ops[0])] (); yield m (x, 'compare-inv')
            if isinstance (n, (ast.BinOp, ast.AugAssign)) and type (n.op) in BIN and not (isinstance (n, ast.BinOp) and isinstance (n.left, ast.Constant) and isinstance (n.left.value, str)):
                x = c (); x.op = BIN[type (n.op)] (); yield m (x, 'binop')
            if isinstance (n, ast.BoolOp):
                x = c (); x.op = ast.And () if isinstance (n.op, ast.Or) else ast.Or (); yield m (x, 'boolop')
                for i in range (len (n.values)):
                    x = c (); del x.values[i]; yield m (x if len (x.values) > 1 else x.values[0], f'drop operand {i}')
            if isinstance (n, ast.UnaryOp) and isinstance (n.op, (ast.Not, ast.USub)):
                yield m (n.operand, 'unary')
            if isinstance (n, (ast.If, ast.IfExp, ast.While)):
                x = c (); x.test = ast.UnaryOp (ast.Not (), x.test); yield m (x, 'negate')
                if not isinstance (n, ast.While):
                    x = c (); x.test = ast.Constant (True); yield m (x, 'true')
                    x = c (); x.test = ast.Constant (False); yield m (x, 'false')
            if isinstance (n, ast.Constant):
                if isinstance (n.value, bool): yield m (ast.Constant (not n.value), 'const')
                elif isinstance (n.value, (int, float)): yield m (ast.Constant (n.value+1), 'const+1'); yield m (ast.Constant (n.value-1), 'const-1')
                elif isinstance (n.value, str) and len (n.value) <= 20: yield m (ast.Constant (n.value+'x' if n.value else 'x'), 'str')
            if isinstance (n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Continue, ast.Break, ast.Delete)) and not (isinstance (n, ast.Expr) and isinstance (n.value, ast.Constant)):
                yield m (ast.copy_location (ast.Pass (), n), 'drop statement')
            if isinstance (n, ast.Break): yield m (ast.Continue (), 'continue')
            if isinstance (n, ast.Continue): yield m (ast.Break (), 'break')
            if isinstance (n, ast.Return) and n.value is not None: yield m (ast.Return (ast.Constant (None)), 'return none')
            if isinstance (n, ast.Slice):
                for f in ('lower', 'upper'):
                    if getattr (n, f) is not None:
                        x = c (); setattr (x, f, None); yield m (x, 'slice '+f)
            if isinstance (n, ast.Call):
                if len (n.args) >= 2:
                    x = c (); x.args[0], x.args[1] = x.args[1], x.args[0]; yield m (x, 'swap args')
                if len (n.args) == 1 and isinstance (n.func, ast.Name) and n.func.id in ('sorted', 'reversed', 'list', 'set', 'enumerate', 'frozenset', 'abs', 'int', 'str', 'tuple'):
                    yield m (n.args[0], 'drop '+n.func.id)
                if len (n.args) >= 1 and isinstance (n.func, ast.Name) and n.func.id in ('min', 'max'):
                    x = c (); x.func.id = 'max' if n.func.id == 'min' else 'min'; yield m (x, 'minmax')
                for i in range (len (n.keywords)):
                    x = c (); del x.keywords[i]; yield m (x, f'drop keyword {n.keywords[i].arg}')
            if isinstance (n, ast.comprehension) and n.ifs:
                n.lineno = n.ifs[0].lineno
                x = c (); x.ifs = []; yield m (x, 'drop filter')
            if isinstance (n, ast.Attribute) and n.attr in ('left', 'right', 'lower', 'upper', 'first', 'last', 'keys', 'values'):
                x = c (); x.attr = {'left': 'right', 'right': 'left', 'lower': 'upper', 'upper': 'lower', 'first': 'last', 'last': 'first', 'keys': 'values', 'values': 'keys'}[n.attr]; yield m (x, 'attr')
            if isinstance (n, ast.Dict) and len (n.keys) > 1:
                for i in range (len (n.keys)):
                    x = c (); del x.keys[i]; del x.values[i]; yield m (x, f'drop item {i}')
        yield from visit (n, path)
    yield from visit (tree, [])

def functions ():
    ret = {}
    for f in glob.glob (os.path.join (VERIF, 'harness', 'c[0-9]*.py')):
        s = open (f).read ()
        m = re.search (r'FUNCTIONS = \[(.*?)\]\n', s, re.S)
        for x in re.findall (r"'(lulua[\w.]+)'", m.group (1)):
            ret.setdefault (x, set ()).add (os.path.basename (f)[:-3].upper ())
    return ret

def main ():
    work, jobs, out = sys.argv[1], int (sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or [os.path.basename (f) for f in sorted (glob.glob (REPO+'/lulua/*.py')) if 'test_' not in f and '__init__' not in f]
    funcs = functions ()
    extra = json.loads (os.environ.get ('EXTRA', '{}'))
    cost = {}
    try:
        cost = {k: v.get ('wall', 30) if isinstance (v, dict) else 30 for k, v in json.load (open (VERIF+'/tools/cost.json')).items ()}
    except Exception:
        pass
    done = set ()
    if os.path.exists (out):
        done = {json.loads (l)['key'] for l in open (out)}
    pool = Queue ()
    for i in range (jobs):
        d = os.path.join (work, f'w{i}')
        shutil.rmtree (d, ignore_errors=True)
        os.makedirs (d)
        shutil.copytree (REPO, d+'/repo', symlinks=True, ignore=shutil.ignore_patterns ('.git', '_build', '__pycache__'))
        shutil.copytree (VERIF, d+'/verif', ignore=shutil.ignore_patterns ('.git', 'seeded', 'evidence', '__pycache__'))
        os.makedirs (d+'/verif/evidence')
        pool.put (d)
    ofd = open (out, 'a')
    def job (file, where, line, what, src, old, key):
        d = pool.get ()
        rec = dict (key=key, file=file, where=where, line=line, what=what)
        try:
            path = f'{d}/repo/lulua/{file}'
            orig = open (path).read ()
            try:
                open (path, 'w').write (src)
                env = dict (os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=d+'/repo', VERIF_JOBS='2')
                try:
                    p = subprocess.run ([PY, '-m', 'pytest', 'lulua', '-q', '-p', 'no:cacheprovider', '--no-cov', '-x', '--timeout=60'], cwd=d+'/repo', env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc != 0:
                    rec['result'] = 'tests'
                else:
                    mod = 'lulua.'+file[:-3]
                    full = f'{mod}.{where}'
                    checks = set ()
                    for k, v in funcs.items ():
                        if full == k or full.startswith (k+'.') or k.startswith (full+'.') : checks |= v
                    checks |= set (extra.get (file, []))
                    rec['checks'] = sorted (checks)
                    rec['result'] = 'survived' if checks else 'uncovered'
                    for c in sorted (checks, key=lambda x: (cost.get (x, 30), x)):
                        try:
                            p = subprocess.run ([PY, 'check.py', '--prop', c, '--tier', 'quick', '--jobs', '2'], cwd=d+'/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                            if p.returncode == 1:
                                rec['result'] = 'caught'; rec['by'] = c; break
                            if p.returncode != 0 or 'INCOMPLETE' in p.stdout:
                                rec.setdefault ('notes', []).append ((c, p.returncode, p.stdout[-300:]))
                        except subprocess.TimeoutExpired:
                            rec.setdefault ('notes', []).append ((c, 'timeout'))
            finally:
                open (path, 'w').write (orig)
        finally:
            pool.put (d)
        ofd.write (json.dumps (rec)+'\n'); ofd.flush ()
    with ThreadPoolExecutor (jobs) as ex:
        todo = []
        for file in files:
            source = open (f'{REPO}/lulua/{file}').read ()
            tree = ast.parse (source)
            base = ast.unparse (tree)
            for where, line, what, do, undo in mutants (tree):
                do ()
                try:
                    src = ast.unparse (ast.fix_missing_locations (tree))
                    compile (src, file, 'exec')
                except Exception:
                    continue
                finally:
                    undo ()
                if src == base: continue
                key = hashlib.sha1 ((file+src).encode ()).hexdigest ()[:12]
                if key in done or int (key, 16) % int (os.environ.get ('SAMPLE', '1')) != 0: continue
                done.add (key)
                import difflib
                diff = [l for l in difflib.unified_diff (base.splitlines (), src.splitlines (), lineterm='', n=0) if l[:1] in '+-' and l[:3] not in ('+++', '---')]
                todo.append ((file, where, line, what+': '+' ⇒ '.join (diff)[:400], src, None, key))
        if os.environ.get ('SHUFFLE'):
            todo.sort (key=lambda x: x[-1])
        fs = [ex.submit (job, *x) for x in todo]
        print (len (fs), 'mutants', flush=True)
        for f in fs: f.result ()
if __name__ == '__main__':
    main ()
