"""
Model of pickle: objects are taken apart when dumping (calling their
__reduce_ex__/__getstate__) and rebuilt when loading (calling __setstate__,
rehashing keys), so that state which lives outside of the object is lost like
it is with the real thing.
"""
import pickle, sys, types, enum, copyreg, datetime, decimal, fractions
from .core import Unsupported
from .values import *
from .strings import SStr
from .containers import SDict, SDefaultDict, SCounter, SSet, SFrozenSet, Box, unbox, mkfrozen, native_iter

atoms = (int, float, str, bytes, bool, type (None), type (Ellipsis), decimal.Decimal, fractions.Fraction, datetime.date, datetime.datetime, enum.Enum)


class Node:
    __slots__ = ('kind', 'a')
    def __init__ (self, kind, *a):
        self.kind, self.a = kind, a


def isglobal (o):
    m = sys.modules.get (getattr (o, '__module__', None))
    q = getattr (o, '__qualname__', None)
    if m is None or q is None or '<' in q:
        return False
    x = m
    for p in q.split ('.'):
        x = getattr (x, p, None)
    return x is o


def dump (o, memo):
    if isinstance (o, Sym) and type (o) is not Choice:
        return Node ('atom', o)
    t = type (o)
    if t is Choice:
        gs, vs = [], []
        for g, v in o.opts ():
            gs.append (g)
            vs.append (dump (v, memo))
        return Node ('choice', gs, vs)
    if isinstance (o, atoms) and t in (int, float, str, bytes, bool, type (None)) or isinstance (o, (enum.Enum, decimal.Decimal, fractions.Fraction, datetime.date)):
        return Node ('atom', o)
    if isinstance (o, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
        if isinstance (o, types.ModuleType):
            raise TypeError ('cannot pickle module objects')
        if not isglobal (o) and not isinstance (o, types.BuiltinFunctionType):
            raise pickle.PicklingError (f"Can't pickle {getattr (o, '__qualname__', o)}: it's not found")
        return Node ('atom', o)
    if isinstance (o, (types.GeneratorType, types.MethodType)):
        raise TypeError (f'cannot pickle {t.__name__!r} object')
    if id (o) in memo:
        return memo[id (o)][0]
    n = Node (None)
    memo[id (o)] = (n, o)
    if t is list:
        n.kind, n.a = 'list', [dump (x, memo) for x in o]
    elif t is tuple:
        n.kind, n.a = 'tuple', [dump (x, memo) for x in o]
    elif isinstance (o, tuple):
        n.kind, n.a = 'ntuple', (t, [dump (x, memo) for x in o])
    elif isinstance (o, (SFrozenSet, frozenset)):
        n.kind, n.a = 'frozenset', [dump (unbox (x), memo) for x in native_iter (o)]
    elif isinstance (o, (SSet, set)):
        n.kind, n.a = 'set', [dump (unbox (x), memo) for x in o]
    elif isinstance (o, dict):
        if isinstance (o, SDefaultDict) and o.default_factory is not None:
            f = dump (o.default_factory, memo)
        else:
            f = None
        extra = {k: v for k, v in getattr (o, '__dict__', {}).items () if k not in ('nbox', 'default_factory')} if hasattr (o, '__dict__') else {}
        n.kind, n.a = 'dict', (t, f, [(dump (unbox (k), memo), dump (dict.__getitem__ (o, k), memo)) for k in dict.__iter__ (o)], dump (extra, memo) if extra else None)
    else:
        red = o.__reduce_ex__ (2)
        if isinstance (red, str):
            n.kind, n.a = 'atom', (o, )
            return n
        f, args, state, li, di = (tuple (red)+(None, )*5)[:5]
        n.kind = 'reduce'
        n.a = (f, dump (args, memo), dump (state, memo) if state is not None else None,
            [dump (x, memo) for x in li] if li is not None else None,
            [(dump (k, memo), dump (v, memo)) for k, v in di] if di is not None else None)
    return n


def load (n, memo):
    k, a = n.kind, n.a
    if k == 'atom':
        return a[0]
    if k == 'choice':
        return mk (a[0], [load (x, memo) for x in a[1]])
    if id (n) in memo:
        return memo[id (n)]
    if k == 'list':
        r = memo[id (n)] = []
        r.extend (load (x, memo) for x in a)
    elif k == 'tuple':
        r = tuple (load (x, memo) for x in a)
    elif k == 'ntuple':
        r = tuple.__new__ (a[0], [load (x, memo) for x in a[1]])
    elif k == 'frozenset':
        r = mkfrozen ([load (x, memo) for x in a])
    elif k == 'set':
        r = memo[id (n)] = SSet ()
        for x in a:
            r.add (load (x, memo))
    elif k == 'dict':
        t, f, items, extra = a
        if t in (dict, SDict):
            r = SDict ()
        elif t is SDefaultDict:
            r = SDefaultDict (load (f, memo) if f else None)
        else:
            r = t.__new__ (t)
            if issubclass (t, SDict) and not hasattr (r, 'nbox'):
                r.nbox = 0
            if isinstance (r, SDefaultDict):
                r.default_factory = load (f, memo) if f else None
        memo[id (n)] = r
        for x, y in items:
            r[load (x, memo)] = load (y, memo)
        if extra is not None:
            for x, y in load (extra, memo).items ():
                setattr (r, x, y)
    elif k == 'reduce':
        from . import rt
        f, args, state, li, di = a
        args = load (args, memo)
        r = memo[id (n)] = rt.call (f, *args)
        if state is not None:
            s = load (state, memo)
            if hasattr (r, '__setstate__'):
                r.__setstate__ (s)
            else:
                slots = None
                if isinstance (s, tuple) and len (s) == 2:
                    s, slots = s
                for d, st in ((s, 0), (slots, 1)):
                    if d:
                        for x, y in d.items ():
                            setattr (r, x, y)
        for x in li or ():
            r.append (load (x, memo))
        for x, y in di or ():
            r[load (x, memo)] = load (y, memo)
    else:
        raise Unsupported ('recursive pickle')
    memo[id (n)] = r
    return r


class Pickled:
    """ what pickle.dumps returns """
    def __init__ (self, o):
        self.n = dump (o, {})

    def load (self):
        return load (self.n, {})
