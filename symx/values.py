"""
Symbolic values.

SBool    z3 Bool
SNum     z3 Int or Real (floats are modelled as exact rationals)
Choice   one of finitely many concrete/symbolic objects, selected by guards
         which are exhaustive and mutually exclusive under the path condition
SStr     string/bytes of a length that is fixed on the path, made of
         characters that may be symbolic code points
"""
import enum
import operator
from decimal import Decimal
from fractions import Fraction
import z3

from .core import istrue, isfalse, E, Unsupported, Abort

CAP = 400

class Sym:
    """ Marker base class """
    __slots__ = ()

    def __deepcopy__ (self, memo):
        return self

    def __copy__ (self):
        return self

    def __reduce_ex__ (self, proto):
        raise Unsupported (f'native pickling of symbolic {self!r}')


class _Hole:
    def __repr__ (self):
        return 'HOLE'

HOLE = _Hole ()

TRUE = z3.BoolVal (True)
FALSE = z3.BoolVal (False)


_ctx = z3.main_ctx ()
_ctxref = _ctx.ref ()


def _nary (f, r):
    """ And/Or without the coercions of z3py """
    n = len (r)
    arr = (z3.Ast * n) ()
    for i in range (n):
        arr[i] = r[i].ast
    return z3.BoolRef (f (_ctxref, n, arr), _ctx)


def zand (*a):
    r = []
    for x in a:
        if isfalse (x):
            return FALSE
        if not istrue (x):
            r.append (x)
    if not r:
        return TRUE
    if len (r) == 1:
        return r[0]
    return _nary (z3.Z3_mk_and, r)


def zor (*a):
    r = []
    for x in a:
        if istrue (x):
            return TRUE
        if not isfalse (x):
            r.append (x)
    if not r:
        return FALSE
    if len (r) == 1:
        return r[0]
    return _nary (z3.Z3_mk_or, r)


def znot (a):
    if istrue (a):
        return FALSE
    if isfalse (a):
        return TRUE
    if z3.is_not (a):
        return a.arg (0)
    return z3.Not (a)


def mkbool (e):
    if istrue (e):
        return True
    if isfalse (e):
        return False
    e = z3.simplify (e)
    if istrue (e):
        return True
    if isfalse (e):
        return False
    return SBool (e)


def tobool (v):
    """ z3 Bool for bool-like v """
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance (v, SBool):
        return v.e
    if type (v) is Choice:
        return zor (*[zand (g, tobool (x)) for g, x in v.opts ()])
    return TRUE if v else FALSE


class SBool (Sym):
    __slots__ = ('e', )

    def __init__ (self, e):
        self.e = e

    @property
    def __class__ (self):
        return bool

    def __bool__ (self):
        return E.fork (self.e)

    def __eq__ (self, o):
        if isinstance (o, (SBool, bool)):
            return mkbool (self.e == tobool (o))
        return self.num () == o

    def __ne__ (self, o):
        r = self.__eq__ (o)
        return not_ (r)

    def __hash__ (self):
        return hash (bool (self))

    def num (self):
        return SNum (z3.If (self.e, z3.IntVal (1), z3.IntVal (0)))

    def __and__ (self, o):
        if isinstance (o, (SBool, bool)):
            return mkbool (zand (self.e, tobool (o)))
        return self.num () & o
    __rand__ = __and__

    def __or__ (self, o):
        if isinstance (o, (SBool, bool)):
            return mkbool (zor (self.e, tobool (o)))
        return self.num () | o
    __ror__ = __or__

    def __xor__ (self, o):
        return not_ (self == o)
    __rxor__ = __xor__

    def __invert__ (self):
        return ~self.num ()

    def __index__ (self):
        return int (bool (self))

    def __int__ (self):
        return int (bool (self))

    def __float__ (self):
        return float (bool (self))

    def __repr__ (self):
        return f'SBool({self.e})'

    def __format__ (self, spec):
        return format (bool (self), spec)

    def __str__ (self):
        return str (bool (self))


def not_ (v):
    if isinstance (v, SBool):
        return mkbool (znot (v.e))
    if type (v) is Choice:
        return mkbool (zor (*[zand (g, znot (truth (x))) for g, x in v.opts ()]))
    return not v


def truth (v):
    """ z3 Bool: truth value of v, without forking where possible """
    if v is True:
        return TRUE
    if v is False or v is None:
        return FALSE
    if isinstance (v, SBool):
        return v.e
    if type (v) is SNum:
        return v.e != 0
    if type (v) is Choice:
        return zor (*[zand (g, truth (x)) for g, x in v.opts ()])
    return TRUE if v else FALSE


numtypes = (int, float, Fraction, Decimal)


def tonum (v):
    """ z3 arithmetic expression for v or None """
    t = type (v)
    if t is SNum:
        return v.e
    if t is SBool:
        return z3.If (v.e, z3.IntVal (1), z3.IntVal (0))
    if t is Choice:
        opts = [(g, tonum (x)) for g, x in v.groups ()]
        if any (x is None for g, x in opts):
            return None
        if any (z3.is_real (x) for g, x in opts):
            opts = [(g, z3.ToReal (x) if z3.is_int (x) else x) for g, x in opts]
        r = opts[-1][1]
        for g, x in reversed (opts[:-1]):
            r = z3.If (g, x, r)
        return r
    if isinstance (v, bool):
        return z3.IntVal (int (v))
    if isinstance (v, int):
        return z3.IntVal (int (v))
    if isinstance (v, float):
        if v != v or v in (float ('inf'), float ('-inf')):
            return None
        return z3.RealVal (str (Fraction (v)))
    if isinstance (v, (Fraction, Decimal)):
        return z3.RealVal (str (Fraction (v)))
    return None


def mknum (e, simp=True):
    if simp:
        e = z3.simplify (e)
    if z3.is_int_value (e):
        return e.as_long ()
    if z3.is_rational_value (e):
        return SNum (e)
    return SNum (e)


def _coerce (a, b):
    if z3.is_int (a) and z3.is_real (b):
        a = z3.ToReal (a)
    elif z3.is_real (a) and z3.is_int (b):
        b = z3.ToReal (b)
    return a, b


def isnum (v):
    return type (v) in (SNum, SBool) or isinstance (v, numtypes)


class SNum (Sym):
    __slots__ = ('e', 'kind')

    def __init__ (self, e, kind=None):
        self.e = e
        # kind: python type this stands for, if not int/float
        self.kind = kind

    @property
    def __class__ (self):
        if self.kind:
            return self.kind
        return int if z3.is_int (self.e) else float

    def _bin (self, o, f, swap=False):
        if type (o) is Choice:
            return NotImplemented
        x = tonum (o)
        if x is None:
            return NotImplemented
        a, b = _coerce (self.e, x)
        kind = self.kind or (o.kind if type (o) is SNum else (Decimal if isinstance (o, Decimal) else Fraction if isinstance (o, Fraction) else None))
        r = f (b, a) if swap else f (a, b)
        r = mknum (r)
        if type (r) is SNum:
            r.kind = kind
        elif kind is not None:
            r = SNum (z3.RealVal (r), kind)
        return r

    def __add__ (self, o): return self._bin (o, lambda a, b: a+b)
    def __radd__ (self, o): return self._bin (o, lambda a, b: a+b, True)
    def __sub__ (self, o): return self._bin (o, lambda a, b: a-b)
    def __rsub__ (self, o): return self._bin (o, lambda a, b: a-b, True)

    def __mul__ (self, o):
        if isinstance (o, (str, bytes, list, tuple)) and not isinstance (o, Sym):
            return o * self.__index__ ()
        return self._bin (o, lambda a, b: a*b)

    def __rmul__ (self, o):
        if isinstance (o, (str, bytes, list, tuple)) and not isinstance (o, Sym):
            return o * self.__index__ ()
        return self._bin (o, lambda a, b: a*b, True)

    def __neg__ (self): return SNum (z3.simplify (-self.e), self.kind)
    def __pos__ (self): return self
    def __abs__ (self): return SNum (z3.simplify (z3.If (self.e >= 0, self.e, -self.e)), self.kind)

    @staticmethod
    def _div (a, b):
        if E.fork (b == 0):
            raise ZeroDivisionError ('division by zero')
        if z3.is_int (a):
            a = z3.ToReal (a)
        if z3.is_int (b):
            b = z3.ToReal (b)
        return a/b

    @staticmethod
    def _floordiv (a, b):
        if E.fork (b == 0):
            raise ZeroDivisionError ('integer division or modulo by zero')
        if z3.is_int (a) and z3.is_int (b):
            if z3.is_int_value (b) and b.as_long () > 0:
                return a/b
            # z3 div rounds such that the remainder is positive
            if E.fork (b > 0):
                return a/b
            return (-a)/(-b)
        return z3.ToReal (z3.ToInt (a/b))

    @classmethod
    def _mod (cls, a, b):
        q = cls._floordiv (a, b)
        if z3.is_int (a) and z3.is_int (b) and z3.is_int_value (b) and b.as_long () > 0:
            return a % b
        a, b = _coerce (a, b)
        q, b = _coerce (q, b)
        return a-q*b

    def __truediv__ (self, o): return self._bin (o, self._div)
    def __rtruediv__ (self, o): return self._bin (o, self._div, True)
    def __floordiv__ (self, o): return self._bin (o, self._floordiv)
    def __rfloordiv__ (self, o): return self._bin (o, self._floordiv, True)
    def __mod__ (self, o): return self._bin (o, self._mod)

    def __rmod__ (self, o):
        if isinstance (o, (str, bytes)):
            return NotImplemented
        return self._bin (o, self._mod, True)

    def __divmod__ (self, o): return self // o, self % o
    def __rdivmod__ (self, o): return o // self, o % self

    def __pow__ (self, o, mod=None):
        if mod is None and isinstance (o, (int, float)) and not isinstance (o, Sym) and float (o).is_integer () and 0 <= o <= 8:
            r = 1
            for i in range (int (o)):
                r = r * self
            if isinstance (o, float) and isinstance (r, int):
                r = float (r) if not isinstance (r, Sym) else r
            return r
        raise Unsupported ('symbolic power')

    def __rpow__ (self, o):
        if z3.is_int (self.e):
            return o ** self.__index__ ()
        raise Unsupported ('symbolic exponent')

    def _bits (self, o, op, swap=False):
        if type (o) is Choice:
            return NotImplemented
        if not isinstance (o, int):
            return NotImplemented
        # powers of two are arithmetic
        if op is operator.lshift and not swap and type (o) is int:
            return self * (1 << o)
        if op is operator.rshift and not swap and type (o) is int:
            return self // (1 << o)
        if op is operator.and_ and type (o) is int and o >= 0 and (o & (o+1)) == 0:
            return self % (o+1)
        # disjoint bits
        if op in (operator.or_, operator.xor, operator.add):
            x = tonum (o)
            for k in (1, 2, 4, 8, 12, 16, 24, 32):
                m = 1 << k
                for lo, hi in ((x, self.e), (self.e, x)):
                    if E.prove (z3.And (lo >= 0, lo < m, hi >= 0, hi % m == 0)) is None:
                        return mknum (lo+hi)
        a = self.__index__ ()
        b = operator.index (o)
        return op (b, a) if swap else op (a, b)

    def __lshift__ (self, o): return self._bits (o, operator.lshift)
    def __rlshift__ (self, o): return self._bits (o, operator.lshift, True)
    def __rshift__ (self, o): return self._bits (o, operator.rshift)
    def __rrshift__ (self, o): return self._bits (o, operator.rshift, True)
    def __and__ (self, o): return self._bits (o, operator.and_)
    def __rand__ (self, o): return self._bits (o, operator.and_, True)
    def __or__ (self, o): return self._bits (o, operator.or_)
    def __ror__ (self, o): return self._bits (o, operator.or_, True)
    def __xor__ (self, o): return self._bits (o, operator.xor)
    def __rxor__ (self, o): return self._bits (o, operator.xor, True)
    def __invert__ (self): return -self-1

    def _cmp (self, o, f):
        if type (o) is Choice:
            return NotImplemented
        if isinstance (o, float) and not isinstance (o, Sym) and (o in (float ('inf'), float ('-inf')) or o != o):
            if o != o:
                return False
            return mkbool (f (z3.RealVal (0), z3.RealVal (1 if o > 0 else -1)))
        x = tonum (o)
        if x is None:
            return NotImplemented
        a, b = _coerce (self.e, x)
        return mkbool (f (a, b))

    def __lt__ (self, o): return self._cmp (o, lambda a, b: a < b)
    def __le__ (self, o): return self._cmp (o, lambda a, b: a <= b)
    def __gt__ (self, o): return self._cmp (o, lambda a, b: a > b)
    def __ge__ (self, o): return self._cmp (o, lambda a, b: a >= b)

    def __eq__ (self, o):
        if type (o) is Choice:
            return NotImplemented
        if isinstance (o, float) and not isinstance (o, Sym) and (o in (float ('inf'), float ('-inf')) or o != o):
            return False
        return self._cmp (o, lambda a, b: a == b)

    def __ne__ (self, o):
        r = self.__eq__ (o)
        if r is NotImplemented:
            return r
        return not_ (r)

    def __bool__ (self):
        return E.fork (self.e != 0)

    def concrete (self):
        v = z3.simplify (self.e)
        if not (z3.is_int_value (v) or z3.is_rational_value (v)):
            if z3.is_real (v):
                raise Unsupported ('concretising a real')
            v = E.pick (v)
        if z3.is_int_value (v):
            return v.as_long ()
        f = v.as_fraction ()
        if self.kind is Decimal:
            return Decimal (f.numerator)/Decimal (f.denominator)
        if self.kind is Fraction:
            return f
        return float (f)

    def __hash__ (self): return hash (self.concrete ())

    def __index__ (self):
        if z3.is_real (self.e):
            raise TypeError ("'float' object cannot be interpreted as an integer")
        return self.concrete ()

    def __int__ (self): return int (self.concrete ())
    def __float__ (self): return float (self.concrete ())
    def __str__ (self): return str (self.concrete ())
    def __format__ (self, spec): return format (self.concrete (), spec)

    def __repr__ (self):
        if not E.active:
            return f'SNum({self.e})'
        return repr (self.concrete ())

    def toint (self):
        """ int(x): truncation """
        if z3.is_int (self.e):
            return self
        return mknum (z3.If (self.e >= 0, z3.ToInt (self.e), -z3.ToInt (-self.e)))

    def __trunc__ (self): return self.toint ()

    def __floor__ (self):
        return self if z3.is_int (self.e) else mknum (z3.ToInt (self.e))

    def __ceil__ (self):
        return self if z3.is_int (self.e) else mknum (-z3.ToInt (-self.e))

    def __round__ (self, n=None):
        if z3.is_int (self.e):
            if n is None or n >= 0:
                return self
        k = n or 0
        m = z3.RealVal (10**k) if k >= 0 else z3.RealVal (f'1/{10**-k}')
        x = (z3.ToReal (self.e) if z3.is_int (self.e) else self.e)*m
        fl = z3.ToInt (x)
        d = x-z3.ToReal (fl)
        half = z3.RealVal ('1/2')
        r = z3.If (d < half, fl, z3.If (d > half, fl+1, z3.If (fl % 2 == 0, fl, fl+1)))
        if n is None:
            return mknum (r)
        v = mknum (z3.ToReal (r)/m)
        if type (v) is SNum:
            v.kind = self.kind
        return v

    def is_integer (self):
        return True if z3.is_int (self.e) else mkbool (z3.IsInt (self.e))

    def quantize (self, *a):
        raise Unsupported ('quantize')

    @property
    def real (self): return self

    @property
    def imag (self): return 0

    @property
    def numerator (self): return self

    @property
    def denominator (self): return 1


prim = (int, float, str, bytes, bool, type (None), enum.Enum)


def vkey (v):
    """ grouping key: values with the same key are interchangeable """
    if isinstance (v, Sym):
        return ('id', id (v))
    if isinstance (v, prim):
        return (type (v), v)
    if type (v) is tuple:
        return (tuple, tuple (vkey (x) for x in v))
    if type (v) is frozenset:
        try:
            return (frozenset, frozenset (vkey (x) for x in v))
        except TypeError:
            pass
    return ('id', id (v))


class Choice (Sym):
    """ guards/vals are parallel; several Choices may share one guards list """
    __slots__ = ('guards', 'vals', '_groups')

    def __init__ (self, guards, vals):
        object.__setattr__ (self, 'guards', guards)
        object.__setattr__ (self, 'vals', vals)
        object.__setattr__ (self, '_groups', None)

    def opts (self):
        return [(g, v) for g, v in zip (self.guards, self.vals) if v is not HOLE]

    def groups (self):
        """ list of (guard, value) with equal values merged """
        r = self._groups
        if r is None:
            d = {}
            for g, v in zip (self.guards, self.vals):
                if v is HOLE:
                    continue
                d.setdefault (vkey (v), (v, []))[1].append (g)
            r = [(zor (*gs), v) for v, gs in d.values ()]
            object.__setattr__ (self, '_groups', r)
        return r

    def pick (self):
        """ Concretise: fork over all feasible options """
        gr = self.groups ()
        for g, v in gr[:-1]:
            if E.fork (g):
                return v
        E.assume (gr[-1][0])
        return gr[-1][1]

    @property
    def __class__ (self):
        ts = []
        for v in self.vals:
            if v is HOLE:
                continue
            t = v.__class__
            if t not in ts:
                ts.append (t)
        if len (ts) == 1:
            return ts[0]
        if len (ts) == 2 and type (None) in ts:
            # decide None-ness first
            x = splitnone (self)
            return x.__class__
        c = splitby (self, lambda v: v.__class__)
        return c.__class__

    def __getattr__ (self, name):
        return lift_getattr (self, name)

    def __setattr__ (self, name, val):
        setattr (self.pick (), name, val)

    def __bool__ (self):
        return E.fork (truth (self))

    def __hash__ (self):
        return hash (self.pick ())

    def __index__ (self):
        return operator.index (self.pick ())

    def __int__ (self): return int (self.pick ())
    def __float__ (self): return float (self.pick ())
    def __str__ (self): return str (self.pick ())
    def __repr__ (self):
        if not E.active:
            return f'Choice({self.vals})'
        return repr (self.pick ())
    def __format__ (self, spec): return format (self.pick (), spec)

    def __len__ (self):
        r = lift1 (len, self)
        return r.pick () if type (r) is Choice else operator.index (r)

    def __iter__ (self):
        c = self
        live = [v for g, v in c.opts ()]
        if all (isinstance (v, frozenset) and not getattr (v, 'sym', False) for v in live):
            c = splitby (c, len)
            if type (c) is not Choice:
                return iter (c)
            n = len (c.opts ()[0][1])
            c = lift1 (lambda v: tuple (v), c)
            if type (c) is not Choice:
                return iter (c)
            return iter ([lift1 (lambda v, i=i: v[i], c) for i in range (n)])
        if any (not isinstance (v, (tuple, str, list)) for v in live):
            from . import rt
            m = rt.samemethod (live, '__iter__')
            if m is not None:
                return iter (m (c))
            return iter (c.pick ())
        if any (isinstance (v, list) for g, v in c.opts ()):
            return iter (c.pick ())
        c = splitby (c, lambda v: (isinstance (v, str), len (v)))
        if type (c) is not Choice:
            return iter (c)
        n = len (c.opts ()[0][1])
        return iter ([lift1 (lambda v, i=i: v[i], c) for i in range (n)])

    def __next__ (self):
        return next (self.pick ())

    def __contains__ (self, k):
        from . import rt
        return bool (rt.contains (k, self))

    def __getitem__ (self, k):
        from . import rt
        return rt.getitem (self, k)

    def __setitem__ (self, k, v):
        self.pick ()[k] = v

    def __delitem__ (self, k):
        del self.pick ()[k]

    def __call__ (self, *a, **k):
        from . import rt
        return rt.call (self.pick (), *a, **k)

    def __enter__ (self): return self.pick ().__enter__ ()

    def __eq__ (self, o):
        from . import rt
        return rt.eq (self, o)

    def __ne__ (self, o):
        from . import rt
        return not_ (rt.eq (self, o))


def splitnone (c):
    g = zor (*[g for g, v in c.opts () if v is None])
    if E.fork (g):
        return None
    return mk (c.guards, [HOLE if v is None else v for v in c.vals])


def splitby (c, key):
    """ Fork over key(option), return the restricted choice """
    d = {}
    for i, v in enumerate (c.vals):
        if v is HOLE:
            continue
        d.setdefault (key (v), []).append (i)
    ks = list (d)
    for k in ks[:-1]:
        if E.fork (zor (*[c.guards[i] for i in d[k]])):
            break
    else:
        k = ks[-1]
        E.assume (zor (*[c.guards[i] for i in d[k]]))
    keep = set (d[k])
    if len (ks) == 1:
        return c
    return mk (c.guards, [v if i in keep else HOLE for i, v in enumerate (c.vals)])


def mk (guards, vals):
    """ Build the simplest value for guarded options """
    live = [(g, v) for g, v in zip (guards, vals) if v is not HOLE]
    if not live:
        raise Abort ()
    if any (type (v) is Choice for g, v in live):
        ng, nv = [], []
        for g, v in live:
            if type (v) is Choice:
                for g2, v2 in v.groups ():
                    ng.append (zand (g, g2))
                    nv.append (v2)
            else:
                ng.append (g)
                nv.append (v)
        return mk (ng, nv)
    first = live[0][1]
    k0 = vkey (first)
    if all (vkey (v) == k0 for g, v in live):
        return first
    if all (v is True or v is False or type (v) is SBool for g, v in live):
        if len (live) == len (guards):
            f = zor (*[g for g, v in live if v is False])
            if not any (type (v) is SBool for g, v in live) and sum (1 for g, v in live if v is False) < len (live)/2:
                return mkbool (znot (f))
        return mkbool (zor (*[zand (g, tobool (v)) for g, v in live]))
    if any (type (v) is SNum for g, v in live) and all (isnum (v) for g, v in live):
        return mknum (tonum (Choice ([g for g, v in live], [v for g, v in live])))
    return Choice (guards, vals)


def guarded (opts):
    return mk ([g for g, v in opts], [v for g, v in opts])


def _raisefork (excs):
    """ excs: list of (guard, exception); forks, raises if taken """
    g = zor (*[g for g, e in excs])
    if E.fork (g):
        for i, (g, e) in enumerate (excs):
            if i == len (excs)-1 or all (type (x) is type (e) for _, x in excs[i:]) or E.fork (g):
                raise e


def lift1 (f, c):
    """ Apply pure function f to every option """
    if type (c) is not Choice:
        return f (c)
    vals, excs = [], []
    cache = {}
    for g, v in zip (c.guards, c.vals):
        if v is HOLE:
            vals.append (HOLE)
            continue
        k = id (v)
        if k in cache:
            r = cache[k]
        else:
            try:
                r = (f (v), None)
            except Exception as e:
                r = (HOLE, e)
            cache[k] = r
        vals.append (r[0])
        if r[1] is not None:
            excs.append ((g, r[1]))
    if excs:
        if all (v is HOLE for v in vals):
            _raisefork (excs)
            raise excs[-1][1]
        _raisefork (excs)
    return mk (c.guards, vals)


def lift2 (f, a, b):
    """ Apply pure binary function f to all combinations of options """
    if type (a) is not Choice:
        return lift1 (lambda y: f (a, y), b)
    if type (b) is not Choice:
        return lift1 (lambda x: f (x, b), a)
    if a.guards is b.guards:
        vals, excs = [], []
        for g, x, y in zip (a.guards, a.vals, b.vals):
            if x is HOLE or y is HOLE:
                vals.append (HOLE)
                continue
            try:
                vals.append (f (x, y))
            except Exception as e:
                vals.append (HOLE)
                excs.append ((g, e))
        if excs:
            _raisefork (excs)
        return mk (a.guards, vals)
    ga, gb = a.groups (), b.groups ()
    if len (ga)*len (gb) > CAP:
        # concretise the smaller one
        if len (ga) <= len (gb):
            return lift2 (f, a.pick (), b)
        return lift2 (f, a, b.pick ())
    ng, nv, excs = [], [], []
    for g1, x in ga:
        for g2, y in gb:
            g = zand (g1, g2)
            try:
                r = f (x, y)
            except Exception as e:
                excs.append ((g, e))
                continue
            ng.append (g)
            nv.append (r)
    if excs:
        _raisefork (excs)
    # merge equal results to keep things small
    d = {}
    for g, v in zip (ng, nv):
        d.setdefault (vkey (v), (v, []))[1].append (g)
    return mk ([zor (*gs) for v, gs in d.values ()], [v for v, gs in d.values ()])


def liftn (f, args, kw=None):
    """ Apply pure f to all combinations of Choice arguments """
    kw = kw or {}
    for i, a in enumerate (args):
        if type (a) is Choice:
            rest = [j for j in range (i+1, len (args)) if type (args[j]) is Choice]
            if not rest:
                return lift1 (lambda x: f (*args[:i], x, *args[i+1:], **kw), a)
            if len (rest) == 1:
                j = rest[0]
                return lift2 (lambda x, y: f (*args[:i], x, *args[i+1:j], y, *args[j+1:], **kw), a, args[j])
            args = list (args)
            args[i] = a.pick ()
    for k, v in kw.items ():
        if type (v) is Choice:
            kw = dict (kw)
            kw[k] = v.pick ()
    return f (*args, **kw)


def _arith (name, op, rname):
    def isarith (v):
        return type (v) is SNum or type (v) is SBool or isinstance (v, numtypes)

    def bigop (a, b):
        na = len (a.groups ()) if type (a) is Choice else 1
        nb = len (b.groups ()) if type (b) is Choice else 1
        if na*nb > CAP and op in (operator.add, operator.sub, operator.mul, operator.lt, operator.le, operator.gt, operator.ge):
            x, y = tonum (a), tonum (b)
            if x is not None and y is not None:
                return op (SNum (x), SNum (y))
        return lift2 (op, a, b)

    def fwd (self, o):
        if type (o) is SNum or type (o) is SBool:
            x = tonum (self)
            if x is not None:
                return op (mknum (x), o)
            return op (self.pick (), o)
        return bigop (self, o)

    def rev (self, o):
        if type (o) is SNum or type (o) is SBool:
            x = tonum (self)
            if x is not None:
                return op (o, mknum (x))
            return op (o, self.pick ())
        return bigop (o, self)
    setattr (Choice, name, fwd)
    if rname:
        setattr (Choice, rname, rev)

for n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift', 'rshift', 'xor'):
    _arith (f'__{n}__', getattr (operator, n), f'__r{n}__')
for n in ('and', 'or'):
    _arith (f'__{n}__', getattr (operator, n+'_'), f'__r{n}__')
for n in ('lt', 'le', 'gt', 'ge'):
    _arith (f'__{n}__', getattr (operator, n), None)
for n in ('neg', 'pos', 'abs', 'invert'):
    setattr (Choice, f'__{n}__', lambda self, op=getattr (operator, n): lift1 (op, self))
Choice.__round__ = lambda self, n=None: lift1 (lambda v: round (v) if n is None else round (v, n), self)


import types
methodtypes = (types.MethodType, types.BuiltinMethodType, types.MethodWrapperType)


class LiftedMethod:
    """ Bound method of a Choice """
    __slots__ = ('c', 'name', 'bound')

    def __init__ (self, c, name, bound):
        self.c = c
        self.name = name
        self.bound = bound

    def __call__ (self, *a, **k):
        from . import rt
        fs = []
        live = [v for v in self.c.vals if v is not HOLE]
        for v in live:
            f = getattr (type (v), self.name, None)
            if not any (f is x for x in fs):
                fs.append (f)
        if len (fs) == 1 and isinstance (fs[0], types.FunctionType) and not fs[0].__module__.startswith ('symx.'):
            # same implementation for all: run it once on the summary
            return fs[0] (self.c, *a, **k)
        if all (isinstance (v, (str, bytes, int, float, tuple, frozenset, enum.Enum, type (None))) for v in live):
            if not any (isinstance (x, Sym) and type (x) is not Choice for x in list (a)+list (k.values ())):
                return liftn (lambda o, *b: rt.call (getattr (o, self.name), *b, **k), [self.c]+list (a))
        if self.name in ('get', '__getitem__', '__contains__') and all (isinstance (v, dict) for v in live):
            return lift1 (lambda o: rt.call (getattr (o, self.name), *a, **k), self.c)
        return rt.call (getattr (self.c.pick (), self.name), *a, **k)


def lift_getattr (c, name):
    if name.startswith ('__') and name not in ('__dict__', '__name__', '__self__', '__func__', '__doc__', '__getitem__', '__contains__', '__len__'):
        raise AttributeError (name)
    live = [v for v in c.vals if v is not HOLE]
    r = []
    for v in live:
        try:
            r.append (getattr (v, name))
        except AttributeError:
            r.append (HOLE)
    if r and all (isinstance (x, methodtypes) or (x is not HOLE and isinstance (x, LiftedMethod)) for x in r):
        return LiftedMethod (c, name, None)
    if any (isinstance (x, methodtypes) for x in r):
        return getattr (c.pick (), name)
    return lift1 (lambda v: getattr (v, name), c)


class ConcHash (int):
    """ Hash of something concrete which remembers what it is the hash of """
    def __new__ (cls, h, content):
        self = int.__new__ (cls, h)
        self.content = content
        return self


class SymHash (int):
    """ Hash of something symbolic; equal iff the content is equal """
    def __new__ (cls, content):
        self = int.__new__ (cls, 0x51574)
        self.content = content
        return self

    def __eq__ (self, o):
        from . import rt
        if isinstance (o, SymHash):
            return rt.eq (self.content, o.content)
        if not isinstance (o, int):
            return False
        c = self.content
        if type (o) is ConcHash:
            return rt.eq (c, o.content)
        if type (c) is SNum:
            return c == o
        if type (c) is Choice and not any (isinstance (v, Sym) for g, v in c.opts ()):
            return lift1 (lambda v: hash (v) == o, c)
        raise Unsupported ('comparing a symbolic with a concrete hash')

    def __ne__ (self, o):
        return not_ (self == o)

    def __hash__ (self):
        return int.__hash__ (self)
