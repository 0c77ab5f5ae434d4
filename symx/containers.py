"""
Hash containers that accept symbolic keys.  Concrete keys live in the native
storage as usual; a symbolic key is stored inside a Box (hashed by identity)
and found by deciding equality.
"""
import z3
from .core import istrue, isfalse, E, Unsupported
from .values import *
from .values import zand, zor, znot, mkbool, _raisefork
from .strings import SStr


class Box:
    __slots__ = ('k', )

    def __init__ (self, k):
        self.k = k

    def __repr__ (self):
        return f'Box({self.k!r})'

    def __deepcopy__ (self, memo):
        import copy
        return Box (copy.deepcopy (self.k, memo))


def unbox (k):
    return k.k if type (k) is Box else k


hashmode = [False]


_userhash = {}

def isuserhash (t):
    r = _userhash.get (t)
    if r is None:
        r = _userhash[t] = hasattr (t.__hash__, 'symx_hash')
    return r


def issym (k):
    """ Is this key symbolic, i.e. can native hashing not find it? """
    if isinstance (k, Sym):
        return True
    t = type (k)
    if t in (str, int, float, bytes, bool, type (None)):
        return False
    if t is SymHash:
        return True
    if isinstance (k, tuple):
        return any (issym (x) for x in k)
    if t is SFrozenSet:
        return k.sym
    if t is frozenset:
        return False
    if isuserhash (t):
        old = hashmode[0]
        hashmode[0] = True
        try:
            return isinstance (t.__hash__ (k), SymHash)
        finally:
            hashmode[0] = old
    return False


def normkey (k):
    """ tuple with Choice elements → Choice of tuples, where small """
    if isinstance (k, tuple) and any (type (x) is Choice for x in k) and type (k) is tuple:
        n = 1
        for x in k:
            if type (x) is Choice:
                n *= len (x.groups ())
            elif isinstance (x, Sym) or issym (x):
                return k
        if n > CAP:
            return k
        ng, nv = [TRUE], [()]
        for x in k:
            if type (x) is Choice:
                g2, v2 = [], []
                for g, v in zip (ng, nv):
                    for gg, vv in x.groups ():
                        h = zand (g, gg)
                        g2.append (h)
                        v2.append (v + (vv, ))
                ng, nv = g2, v2
            else:
                nv = [v + (x, ) for v in nv]
        return mk (ng, nv)
    return k


def nboxes (d):
    return d.nbox if isinstance (d, (SDict, SSet, SFrozenSet)) else 0


def native_in (d, k):
    if isinstance (d, dict):
        return dict.__contains__ (d, k)
    if isinstance (d, frozenset):
        return frozenset.__contains__ (d, k)
    return set.__contains__ (d, k)


def native_iter (d):
    if isinstance (d, dict):
        return dict.__iter__ (d)
    if isinstance (d, frozenset):
        return frozenset.__iter__ (d)
    return set.__iter__ (d)


def find (d, k):
    """ All (guard, native key) under which k is the given key of d """
    from . import rt
    k = normkey (k)
    if type (k) is Choice:
        d1 = {}
        for g, v in k.groups ():
            for g2, nk in find (d, v):
                d1.setdefault (vkey (nk) if not isinstance (nk, Box) else id (nk), (nk, []))[1].append (zand (g, g2))
        r = [(zor (*gs), nk) for nk, gs in d1.values ()]
        # complete?
        return r
    if not issym (k):
        if native_in (d, k):
            return [(TRUE, k)]
        if not nboxes (d):
            return []
        cand = [x for x in native_iter (d) if type (x) is Box]
    else:
        cand = list (native_iter (d))
    r = []
    for x in cand:
        g = rt.eqz (unbox (x), k)
        if istrue (g):
            return [(TRUE, x)]
        if not isfalse (g):
            r.append ((g, x))
    return r


def missing (cands):
    """ decide (fork) whether none of the candidates match """
    if not cands:
        return True
    g = z3.simplify (zor (*[g for g, k in cands]))
    if istrue (g):
        return False
    return not E.fork (g)


def resolve (cands):
    """ fork to a single native key """
    for g, k in cands[:-1]:
        if E.fork (g):
            return k
    if not istrue (cands[-1][0]):
        E.assume (cands[-1][0])
    return cands[-1][1]


def simple (d, k):
    """ native operation is exact """
    t = type (k)
    return (t is str or t is int) and not nboxes (d)


MISSING = object ()


def lookup (d, k, default=MISSING):
    """ d[k] / d.get (k, default) for native or symbolic dict """
    cands = find (d, k)
    if default is MISSING:
        if missing (cands):
            return MISSING
        return mk ([g for g, x in cands], [dict.__getitem__ (d, x) for g, x in cands])
    if not cands:
        return default
    gm = z3.simplify (znot (zor (*[g for g, x in cands])))
    opts = [(g, dict.__getitem__ (d, x)) for g, x in cands]
    if not isfalse (gm):
        if default is None or isinstance (default, (prim, Sym)):
            opts.append ((gm, default))
        else:
            if E.fork (gm):
                return default
    return guarded (opts)


class SDict (dict):
    __slots__ = ('nbox', '__weakref__', '__dict__')

    def __init__ (self, *a, **k):
        self.nbox = 0
        dict.__init__ (self)
        self.update (*a, **k)

    @property
    def __class__ (self):
        return dict

    def __getitem__ (self, k):
        if simple (self, k):
            try:
                return dict.__getitem__ (self, k)
            except KeyError:
                return self.__missing__ (k)
        v = lookup (self, k)
        if v is MISSING:
            return self.__missing__ (k)
        return v

    def __missing__ (self, k):
        raise KeyError (k)

    def __setitem__ (self, k, v):
        if simple (self, k):
            return dict.__setitem__ (self, k, v)
        cands = find (self, k)
        if missing (cands):
            self.insert (k, v)
        elif len (cands) == 1:
            dict.__setitem__ (self, cands[0][1], v)
        else:
            for g, x in cands:
                old = dict.__getitem__ (self, x)
                dict.__setitem__ (self, x, mk ([g, znot (g)], [v, old]))

    def insert (self, k, v):
        if issym (k):
            if type (k) is Choice:
                # all remaining options are absent
                pass
            self.nbox += 1
            dict.__setitem__ (self, Box (k), v)
        else:
            dict.__setitem__ (self, k, v)

    def __delitem__ (self, k):
        cands = find (self, k)
        if missing (cands):
            raise KeyError (k)
        x = resolve (cands)
        if type (x) is Box:
            self.nbox -= 1
        dict.__delitem__ (self, x)

    def __contains__ (self, k):
        return bool (self.contains (k))

    def contains (self, k):
        return mkbool (zor (*[g for g, x in find (self, k)]))

    def has_key (self, k):
        return self.__contains__ (k)

    def get (self, k, default=None):
        if simple (self, k):
            return dict.get (self, k, default)
        return lookup (self, k, default)

    def setdefault (self, k, default=None):
        cands = find (self, k)
        if missing (cands):
            self.insert (k, default)
            return default
        return mk ([g for g, x in cands], [dict.__getitem__ (self, x) for g, x in cands])

    def pop (self, k, *default):
        cands = find (self, k)
        if missing (cands):
            if default:
                return default[0]
            raise KeyError (k)
        x = resolve (cands)
        if type (x) is Box:
            self.nbox -= 1
        return dict.pop (self, x)

    def popitem (self):
        k, v = dict.popitem (self)
        if type (k) is Box:
            self.nbox -= 1
        return unbox (k), v

    def clear (self):
        self.nbox = 0
        dict.clear (self)

    def update (self, *a, **k):
        for x in a:
            if type (x) is Choice:
                x = x.pick ()
            if hasattr (x, 'keys'):
                for kk in x.keys ():
                    self[kk] = x[kk]
            else:
                for kk, vv in x:
                    self[kk] = vv
        for kk, vv in k.items ():
            self[kk] = vv

    def copy (self):
        r = SDict.__new__ (SDict)
        r.nbox = self.nbox
        dict.update (r, dict.items (self)) if False else None
        for k in dict.__iter__ (self):
            dict.__setitem__ (r, k, dict.__getitem__ (self, k))
        return r
    __copy__ = copy

    def __deepcopy__ (self, memo):
        import copy
        r = self.copy ()
        memo[id (self)] = r
        items = [(k, dict.__getitem__ (self, k)) for k in dict.__iter__ (self)]
        dict.clear (r)
        for k, v in items:
            dict.__setitem__ (r, copy.deepcopy (k, memo), copy.deepcopy (v, memo))
        return r

    def __iter__ (self):
        if not self.nbox:
            return dict.__iter__ (self)
        return iter ([unbox (k) for k in dict.__iter__ (self)])

    def __reversed__ (self):
        return iter (list (self)[::-1])

    def keys (self): return KeysView (self)
    def values (self): return dict.values (self)
    def items (self):
        if not self.nbox:
            return dict.items (self)
        return ItemsView (self)

    def __eq__ (self, o):
        from . import rt
        if not isinstance (o, dict):
            return False
        return mkbool (dicteq (self, o))

    def __ne__ (self, o):
        return not_ (self == o)

    __hash__ = None

    def __or__ (self, o):
        r = self.copy ()
        r.update (o)
        return r

    def __ror__ (self, o):
        r = SDict (o)
        r.update (self)
        return r

    def __ior__ (self, o):
        self.update (o)
        return self

    def __repr__ (self):
        return '{' + ', '.join (f'{k!r}: {v!r}' for k, v in self.items ()) + '}'

    @classmethod
    def fromkeys (cls, it, v=None):
        r = cls ()
        for k in it:
            r[k] = v
        return r

    def __reduce_ex__ (self, p):
        if self.nbox:
            raise Unsupported ('native pickle of symbolic dict')
        return (dict, (dict (dict.items (self)), ))


def dicteq (a, b):
    """ z3 Bool: dictionaries are equal.  Keys are pairwise distinct on both
    sides, so equality = same size and every key of a is found in b with an
    equal value """
    from . import rt
    if len (a) != len (b):
        return FALSE
    r = []
    for k in native_iter (a):
        v = dict.__getitem__ (a, k)
        cands = find (b, unbox (k))
        if not cands:
            return FALSE
        r.append (zor (*[zand (g, rt.eqz (v, dict.__getitem__ (b, x))) for g, x in cands]))
        if isfalse (r[-1]):
            return FALSE
    return zand (*r)


class KeysView:
    """ set-like view """
    def __init__ (self, d): self.d = d
    def __iter__ (self): return iter (self.d)
    def __reversed__ (self): return reversed (list (self.d))
    def __len__ (self): return len (self.d)
    def __contains__ (self, k): return k in self.d
    def contains (self, k): return self.d.contains (k)
    def _set (self): return SSet (self.d)
    def __eq__ (self, o): return self._set () == (SSet (o) if isinstance (o, KeysView) else o)
    def __and__ (self, o): return self._set () & SSet (o)
    def __or__ (self, o): return self._set () | SSet (o)
    def __sub__ (self, o): return self._set () - SSet (o)
    def __xor__ (self, o): return self._set () ^ SSet (o)
    def __rsub__ (self, o): return SSet (o) - self._set ()
    __rand__ = __and__
    __ror__ = __or__
    def __le__ (self, o): return self._set () <= SSet (o)
    def __ge__ (self, o): return self._set () >= SSet (o)
    def isdisjoint (self, o): return self._set ().isdisjoint (o)
    def __repr__ (self): return f'dict_keys({list (self)!r})'
    __hash__ = None


class ItemsView:
    def __init__ (self, d): self.d = d
    def __iter__ (self):
        return iter ([(unbox (k), dict.__getitem__ (self.d, k)) for k in dict.__iter__ (self.d)])
    def __reversed__ (self): return reversed (list (self))
    def __len__ (self): return len (self.d)
    def __contains__ (self, kv): return any (kv == x for x in self)
    def __repr__ (self): return f'dict_items({list (self)!r})'


class SDefaultDict (SDict):
    __slots__ = ('default_factory', )

    def __init__ (self, factory=None, *a, **k):
        self.default_factory = factory
        SDict.__init__ (self, *a, **k)

    @property
    def __class__ (self):
        from collections import defaultdict
        return defaultdict

    def __missing__ (self, k):
        from . import rt
        if self.default_factory is None:
            raise KeyError (k)
        v = rt.call (self.default_factory)
        # the caller established that k is absent
        self.insert (k, v)
        return v

    def copy (self):
        r = SDefaultDict.__new__ (SDefaultDict)
        r.default_factory = self.default_factory
        r.nbox = self.nbox
        for k in dict.__iter__ (self):
            dict.__setitem__ (r, k, dict.__getitem__ (self, k))
        return r
    __copy__ = copy

    def __reduce_ex__ (self, p):
        return SDict.__reduce_ex__ (self, p)


class SCounter (SDict):
    @property
    def __class__ (self):
        from collections import Counter
        return Counter

    def __init__ (self, it=None, **k):
        SDict.__init__ (self)
        if it is not None:
            self.update (it)
        if k:
            self.update (k)

    def __missing__ (self, k):
        return 0

    def update (self, *a, **k):
        for x in a:
            if hasattr (x, 'keys'):
                for kk in x.keys ():
                    self[kk] = self.get (kk, 0) + x[kk]
            else:
                for kk in x:
                    self[kk] = self.get (kk, 0) + 1
        for kk, v in k.items ():
            self[kk] = self.get (kk, 0) + v

    def subtract (self, x):
        if hasattr (x, 'keys'):
            for kk in x.keys ():
                self[kk] = self.get (kk, 0) - x[kk]
        else:
            for kk in x:
                self[kk] = self.get (kk, 0) - 1

    def copy (self):
        r = SCounter ()
        r.nbox = self.nbox
        for k in dict.__iter__ (self):
            dict.__setitem__ (r, k, dict.__getitem__ (self, k))
        return r
    __copy__ = copy

    def elements (self):
        for k, v in self.items ():
            for i in range (v):
                yield k

    def total (self):
        return sum (self.values ())

    def most_common (self, n=None):
        r = sorted (self.items (), key=lambda x: x[1], reverse=True)
        return r if n is None else r[:n]

    def __add__ (self, o):
        r = SCounter ()
        for k, v in self.items ():
            s = v + o[k]
            if s > 0:
                r[k] = s
        for k, v in o.items ():
            if k not in self and v > 0:
                r[k] = v
        return r

    def __iadd__ (self, o):
        self.update (o)
        for k, v in list (self.items ()):
            if not v > 0:
                del self[k]
        return self


class _SetBase:
    __slots__ = ()

    def contains (self, k):
        return mkbool (zor (*[g for g, x in find (self, k)]))

    def __contains__ (self, k):
        t = type (k)
        if (t is str or t is int) and not self.nbox:
            return native_in (self, k)
        return bool (self.contains (k))

    def __iter__ (self):
        if not self.nbox:
            return native_iter (self)
        # insertion order is not defined for native storage; keep it stable
        return iter (list (self.order))

    def _items (self):
        return list (self)

    def __eq__ (self, o):
        if not isinstance (o, (set, frozenset)):
            return NotImplemented if not isinstance (o, KeysView) else self == o._set ()
        return mkbool (seteq (self, o))

    def __ne__ (self, o):
        r = self.__eq__ (o)
        return r if r is NotImplemented else not_ (r)

    def _mk (self, it):
        return type (self) (it)

    def __or__ (self, o): return self._mk (self._items () + list (o))
    def __ror__ (self, o): return self._mk (list (o) + self._items ())
    def union (self, *o):
        r = self._items ()
        for x in o:
            r += list (x)
        return self._mk (r)

    def __and__ (self, o):
        from . import rt
        return self._mk ([x for x in self._items () if rt.contains (x, o)])
    __rand__ = __and__

    def intersection (self, *o):
        r = self
        for x in o:
            r = r & SSet (x)
        return r

    def __sub__ (self, o):
        from . import rt
        return self._mk ([x for x in self._items () if not rt.contains (x, o)])

    def __rsub__ (self, o):
        return self._mk ([x for x in o if x not in self])

    def difference (self, *o):
        r = self
        for x in o:
            r = r - SSet (x)
        return r

    def __xor__ (self, o): return (self - o) | self._mk ([x for x in o if x not in self])
    __rxor__ = __xor__
    def symmetric_difference (self, o): return self ^ SSet (o)

    def issubset (self, o): return mkbool (subset (self, SSet (o)))
    def issuperset (self, o): return mkbool (subset (SSet (o), self))
    def __le__ (self, o): return mkbool (subset (self, o))
    def __ge__ (self, o): return mkbool (subset (o, self))
    def __lt__ (self, o): return mkbool (zand (subset (self, o), znot (seteq (self, o))))
    def __gt__ (self, o): return mkbool (zand (subset (o, self), znot (seteq (self, o))))
    def isdisjoint (self, o):
        return mkbool (zand (*[znot (zor (*[g for g, x in find (self, y)])) for y in o]))

    def __repr__ (self):
        return f'{type (self).__name__}({self._items ()!r})'


def subset (a, b):
    r = []
    for x in (a if isinstance (a, _SetBase) else list (a)):
        r.append (zor (*[g for g, y in find (b, x)]))
        if isfalse (r[-1]):
            return FALSE
    return zand (*r)


def seteq (a, b):
    if len (a) != len (b):
        return FALSE
    return subset (a, b)


class SSet (_SetBase, set):
    __slots__ = ('nbox', 'order')

    def __new__ (cls, it=()):
        return set.__new__ (cls)

    def __init__ (self, it=()):
        set.__init__ (self)
        self.nbox = 0
        self.order = []
        for x in it:
            self.add (x)

    @property
    def __class__ (self):
        return set

    __hash__ = None

    def add (self, k):
        if simple (self, k):
            if not set.__contains__ (self, k):
                set.add (self, k)
                self.order.append (k)
            return
        if missing (find (self, k)):
            if issym (k):
                self.nbox += 1
                set.add (self, Box (k))
            else:
                set.add (self, k)
            self.order.append (k)

    def __iter__ (self):
        return iter (list (self.order))

    def discard (self, k):
        cands = find (self, k)
        if missing (cands):
            return False
        x = resolve (cands)
        if type (x) is Box:
            self.nbox -= 1
        set.discard (self, x)
        u = unbox (x)
        for i, y in enumerate (self.order):
            if y is u or (type (x) is not Box and not issym (y) and y == u):
                del self.order[i]
                break
        return True

    def remove (self, k):
        if not self.discard (k):
            raise KeyError (k)

    def pop (self):
        if not self.order:
            raise KeyError ('pop from an empty set')
        k = self.order[0]
        self.discard (k)
        return k

    def clear (self):
        set.clear (self)
        self.nbox = 0
        self.order = []

    def update (self, *o):
        for x in o:
            for y in list (x):
                self.add (y)

    def __ior__ (self, o):
        self.update (o)
        return self

    def __iand__ (self, o):
        from . import rt
        for x in list (self.order):
            if not rt.contains (x, o):
                self.discard (x)
        return self

    def __isub__ (self, o):
        for x in list (o):
            self.discard (x)
        return self

    def intersection_update (self, *o):
        for x in o:
            self &= SSet (x)

    def difference_update (self, *o):
        for x in o:
            self -= SSet (x)

    def copy (self):
        return SSet (self)
    __copy__ = copy

    def __deepcopy__ (self, memo):
        import copy
        return SSet ([copy.deepcopy (x, memo) for x in self.order])

    def __reduce_ex__ (self, p):
        return (set, (list (self.order), ))


class SFrozenSet (_SetBase, frozenset):
    __slots__ = ('nbox', 'order', 'sym')

    def __new__ (cls, it=()):
        tmp = SSet (it)
        self = frozenset.__new__ (cls, set.__iter__ (tmp))
        self.nbox = tmp.nbox
        self.order = tuple (tmp.order)
        self.sym = tmp.nbox > 0
        return self

    def __init__ (self, it=()):
        pass

    @property
    def __class__ (self):
        return frozenset

    def __iter__ (self):
        return iter (self.order)

    def __hash__ (self):
        if self.sym:
            if hashmode[0]:
                return SymHash (self)
            raise Unsupported ('native hash of symbolic frozenset')
        return frozenset.__hash__ (self)

    def copy (self):
        return self
    __copy__ = copy

    def __deepcopy__ (self, memo):
        import copy
        return mkfrozen ([copy.deepcopy (x, memo) for x in self.order])

    def __reduce_ex__ (self, p):
        return (mkfrozen, (list (self.order), ))


def mkfrozen (it=()):
    it = list (it)
    if any (issym (x) for x in it):
        return SFrozenSet (it)
    # deterministic iteration order is not guaranteed natively either
    return frozenset (it)
