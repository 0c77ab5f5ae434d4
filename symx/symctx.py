""" Symbolic side of ctx.py """
import enum
import z3
from fractions import Fraction

from .core import istrue, isfalse, E, Abort, CounterExample, Inconclusive, Unsupported
from .values import *
from .values import zand, zor, mkbool, tonum, truth
from .strings import SStr, SChar, mkstr
from .containers import SDict, SSet, SFrozenSet, unbox, native_iter
from .ctx import BaseCtx, canon
from . import rt


class SymCtx (BaseCtx):
    symbolic = True

    def __init__ (self):
        self.inputs = {}    # name → (kind, expr or list)
        self.obs = []
        self.nchecks = 0
        self.labels = {}
        self.reals = []

    def _new (self, name, kind, e):
        if name in self.inputs:
            raise Unsupported (f'duplicate input {name}')
        self.inputs[name] = (kind, e)

    def int (self, name, lo=None, hi=None):
        v = z3.Int (name)
        self._new (name, 'int', v)
        if lo is not None:
            E.assume (v >= lo)
        if hi is not None:
            E.assume (v <= hi)
        return SNum (v)

    def real (self, name, lo=None, hi=None):
        v = z3.Real (name)
        self._new (name, 'real', v)
        self.reals.append (v)
        if lo is not None:
            E.assume (v >= tonum (lo))
        if hi is not None:
            E.assume (v <= tonum (hi))
        return SNum (v)

    def bool (self, name):
        v = z3.Bool (name)
        self._new (name, 'bool', v)
        return SBool (v)

    def pick (self, name, options):
        options = list (options)
        v = z3.Int (name)
        self._new (name, 'int', v)
        E.assume (z3.And (v >= 0, v < len (options)))
        if len (options) == 1:
            return options[0]
        return mk ([v == i for i in range (len (options))], options)

    def fork (self, name, options):
        """ like pick, but decided on this path (structural choices) """
        options = list (options)
        v = z3.Int (name)
        self._new (name, 'int', v)
        E.assume (z3.And (v >= 0, v < len (options)))
        for i in range (len (options)-1):
            if E.fork (v == i):
                return options[i]
        E.assume (v == len (options)-1)
        return options[-1]

    def _char (self, v, alphabet):
        if alphabet is None:
            # all of unicode, except surrogates (cannot be encoded)
            E.assume (z3.And (v >= 0, v <= 0x10ffff, z3.Or (v < 0xd800, v > 0xdfff)))
            return SChar (v)
        dom = [ord (x) if isinstance (x, str) else x for x in alphabet]
        E.assume (z3.Or (*[v == x for x in dom]))
        return SChar (v, dom)

    def char (self, name, alphabet=None):
        v = z3.Int (name)
        self._new (name, 'int', v)
        return mkstr ([self._char (v, alphabet)])

    def str (self, name, n, alphabet=None):
        vs = [z3.Int (f'{name}_{i}') for i in range (n)]
        self._new (name, 'list', vs)
        return mkstr ([self._char (v, alphabet) for v in vs])

    def bytes (self, name, n, alphabet=None):
        vs = [z3.Int (f'{name}_{i}') for i in range (n)]
        self._new (name, 'list', vs)
        if alphabet is None:
            for v in vs:
                E.assume (z3.And (v >= 0, v < 256))
            return mkstr ([SChar (v) for v in vs], True)
        return mkstr ([self._char (v, alphabet) for v in vs], True)

    def permutation (self, name, n):
        raise Unsupported ('permutation')

    def newprocess (self):
        """ from here on, code runs in another process: module level state is
        as after import; only pickled data can be taken along """
        E.snap.restore ()
        from harness import common
        common.reset ()

    def picklefile (self, objs=()):
        return rt.PickleFile (objs)

    def unpickle (self, f):
        return f.get ()

    def unpickleall (self, f):
        return [o.load () for o in f.objs]

    def undecided (self, why):
        raise Unsupported (why)

    def assume (self, c):
        E.assume (truth (c))

    def check (self, c, label):
        self.nchecks += 1
        self.labels[label] = self.labels.get (label, 0)+1
        c = truth (c)
        m = E.prove (c)
        if m is not None:
            e = CounterExample (label, self.assignment (nc=c, m=m))
            if E.opaque:
                e.more = self.alternatives (c)
            raise e

    def alternatives (self, c):
        """ further inputs: the path depends on functions the solver knows nothing about """
        import random
        r = random.Random (1)
        out = []
        for n in (3, 3, 10, 10, 50, 50, 50, 1000, 1000, 1000, 1000, 1000):
            extra = [e == r.randint (1, n) for kind, e in self.inputs.values () if kind == 'int']
            x, m = E._check (z3.Not (c), *extra)
            if m is not None:
                out.append (self.values (m))
        return out

    def close (self, a, b, label, eps=1e-6):
        """ symbolic values are exact; native floats are compared with a
        tolerance, so ask for a difference a float replay can show """
        self.nchecks += 1
        self.labels[label] = self.labels.get (label, 0)+1
        a, b = tonum (a), tonum (b)
        a, b = rt._coerce (a, b)
        c = z3.simplify (a == b)
        if istrue (c):
            E.stats['checks'] += 1
            E.stats['checks_trivial'] += 1
            return
        # literals of the code are binary floats; allow their rounding
        tol = z3.RealVal ('1/1000000000')
        d = a-b
        c = z3.And (d <= tol, d >= -tol)
        m = E.prove (c)
        if m is not None:
            # prefer a clearly visible difference
            big = z3.Or (d > 1, d < -1)
            r, m2 = E._check (big)
            raise CounterExample (label, self.assignment (nc=z3.Not (big) if m2 is not None else c, m=m2 or m))

    def assignment (self, nc=None, m=None):
        """ concrete inputs violating nc, preferring numbers floats can
        represent exactly """
        if self.reals:
            for den in (1, 8, 1024):
                extra = [z3.IsInt (v*den) for v in self.reals]
                extra += [z3.And (v <= 1000, v >= -1000) for v in self.reals]
                if nc is not None:
                    extra.append (z3.Not (nc))
                r, m2 = E._check (*extra)
                if r == z3.sat:
                    m = m2
                    break
        return self.values (m)

    def values (self, m):
        r = {}
        for k, (kind, e) in self.inputs.items ():
            if kind == 'list':
                r[k] = [m.eval (x, model_completion=True).as_long () for x in e]
            else:
                v = m.eval (e, model_completion=True)
                if kind == 'int':
                    r[k] = v.as_long ()
                elif kind == 'bool':
                    r[k] = istrue (v)
                else:
                    if z3.is_algebraic_value (v):
                        v = v.approx (20)
                    r[k] = str (v.as_fraction ())
        return r

    def observe (self, *v):
        self.obs.append (v)

    def evalobs (self, m):
        return [evalm (v, m) for v in self.obs]


def evalm (v, m):
    """ canonical form (see ctx.canon) of a symbolic value under model m """
    t = type (v)
    if t is SBool:
        return istrue (m.eval (v.e, model_completion=True))
    if t is SNum:
        x = m.eval (v.e, model_completion=True)
        if z3.is_int_value (x):
            return x.as_long ()
        if z3.is_algebraic_value (x):
            x = x.approx (20)
        return {'f': float (x.as_fraction ())}
    if t is Choice:
        for g, x in v.opts ():
            if istrue (m.eval (g, model_completion=True)):
                return evalm (x, m)
        raise Unsupported ('no option selected')
    if t is SStr:
        cs = [c if type (c) is int else m.eval (c.e, model_completion=True).as_long () for c in v.cs]
        return {'b': cs} if v.b else ''.join (map (chr, cs))
    if t is rt.Rope:
        return ''.join (p if type (p) is str else evalfmt (p, m) for p in v.parts)
    if t is rt.Fmt:
        return evalfmt (v, m)
    if isinstance (v, (list, tuple)):
        return [evalm (x, m) for x in v]
    if isinstance (v, (SDict, dict)):
        return {'d': sorted (([evalm (unbox (k), m), evalm (dict.__getitem__ (v, k), m)] for k in dict.__iter__ (v)), key=repr)}
    if isinstance (v, (set, frozenset)):
        return {'s': sorted ((evalm (unbox (x), m) for x in native_iter (v)), key=repr)}
    return canon (v)


def evalfmt (p, m):
    if type (p) is rt.Fmt:
        x = evalm (p.v, m)
        if isinstance (x, dict) and 'f' in x:
            x = x['f']
        return format (x, p.spec)
    return evalm (p, m)
