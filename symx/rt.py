"""
Runtime called by instrumented code (see instrument.py): operations that the
C interpreter would otherwise perform on symbolic values in a lossy way.
"""
import builtins, collections, copy as _copy, decimal, fractions, functools, io, itertools, math, operator, pickle, types, unicodedata, enum, sys, datetime, random, re, string
import z3

from .core import istrue, isfalse, E, Abort, Unsupported, CounterExample, Inconclusive
from .values import *
from .values import zand, zor, znot, mkbool, mknum, tonum, truth, tobool, splitnone, _raisefork, _coerce
from .strings import SStr, SChar, mkstr, joinstr, charlift, elements, el2z, concstr, charfuncs
from .containers import *
from .containers import issym, isuserhash, find, hashmode, lookup, MISSING, dicteq, seteq, subset, mkfrozen, KeysView, normkey

from .pickling import Pickled
from . import regex

instrumented = set ()   # names of modules
slice = slice


def sym (v):
    return isinstance (v, Sym)


def anysym (v, depth=4):
    """ does v contain symbolic parts? """
    if isinstance (v, Sym):
        return True
    t = type (v)
    if t in (str, int, float, bytes, bool, type (None)):
        return False
    if depth <= 0:
        return False
    if isinstance (v, (list, tuple)):
        return any (anysym (x, depth-1) for x in v)
    if isinstance (v, (SDict, SSet, SFrozenSet)):
        if v.nbox:
            return True
    if isinstance (v, dict):
        return any (anysym (x, depth-1) for x in dict.values (v))
    return False


# -- equality ---------------------------------------------------------------

def eqz (a, b):
    r = eq (a, b)
    if type (r) is SBool:
        return r.e
    if r is True:
        return TRUE
    if r is False:
        return FALSE
    return truth (r)


fastt = (str, int, float, bytes, bool, type (None))

def eq (a, b):
    ta, tb = type (a), type (b)
    if ta in fastt and tb in fastt:
        return a == b
    if ta is Choice or tb is Choice:
        return eqchoice (a, b)
    if isinstance (a, (list, tuple)) and isinstance (b, (list, tuple)) and not sym (a) and not sym (b):
        if isinstance (a, list) != isinstance (b, list):
            return False
        if ta.__eq__ in (tuple.__eq__, list.__eq__) and tb.__eq__ in (tuple.__eq__, list.__eq__):
            if len (a) != len (b):
                return False
            r = []
            for x, y in zip (a, b):
                if x is y and not sym (x):
                    continue
                z = eqz (x, y)
                if isfalse (z):
                    return False
                r.append (z)
            return mkbool (zand (*r))
    if isinstance (a, dict) and isinstance (b, dict) and not sym (a) and not sym (b):
        return mkbool (dicteq (a, b))
    if isinstance (a, (set, frozenset)) and isinstance (b, (set, frozenset)) and not sym (a) and not sym (b):
        return mkbool (seteq (a, b))
    if ta is SymHash or tb is SymHash:
        return SymHash.__eq__ (a if ta is SymHash else b, b if ta is SymHash else a)
    r = a == b
    return r


def eqchoice (a, b):
    if type (a) is Choice and type (b) is Choice:
        if a.guards is b.guards:
            return lift2 (eq, a, b)
        la = [v for g, v in a.opts ()]
        lb = [v for g, v in b.opts ()]
        if all (isinstance (v, prim) and not isinstance (v, Sym) for v in la+lb):
            # join on common values
            r = []
            gb = b.groups ()
            for g1, x in a.groups ():
                for g2, y in gb:
                    if x == y:
                        r.append (zand (g1, g2))
            return mkbool (zor (*r))
        m = samemethod (la+lb, '__eq__')
        if m is not None:
            r = m (a, b)
            if r is NotImplemented:
                return False
            return r
        ga, gb = a.groups (), b.groups ()
        if len (ga)*len (gb) > 20000:
            raise Unsupported ('equality of large choices')
        r = []
        for g1, x in ga:
            for g2, y in gb:
                z = eqz (x, y)
                if not isfalse (z):
                    r.append (zand (g1, g2, z))
        return mkbool (zor (*r))
    if type (a) is Choice:
        c, o = a, b
    else:
        c, o = b, a
    if type (o) is SNum:
        x = tonum (c)
        if x is not None:
            return mknum (x) == o
    return lift1 (lambda v: eq (v, o), c)


def samemethod (vals, name):
    """ the python function implementing method for all vals, or None """
    f = None
    for v in vals:
        if isinstance (v, Sym):
            return None
        m = getattr (type (v), name, None)
        if not isinstance (m, types.FunctionType) or m.__module__.startswith ('symx.'):
            return None
        if f is None:
            f = m
        elif f is not m:
            return None
    return f


def ne (a, b):
    ta, tb = type (a), type (b)
    if ta in fastt and tb in fastt:
        return a != b
    if not (isinstance (a, (Sym, list, tuple, dict, set, frozenset, SymHash)) or isinstance (b, Sym)):
        return a != b
    return not_ (eq (a, b))


def is_ (a, b):
    if type (a) is Choice:
        if type (b) is Choice:
            r = []
            for g, x in a.groups ():
                for g2, y in b.groups ():
                    if x is y:
                        r.append (zand (g, g2))
            return mkbool (zor (*r))
        return lift1 (lambda v: is_ (v, b), a)
    if type (b) is Choice:
        return is_ (b, a)
    if type (a) is SBool and (b is True or b is False):
        return a == b
    if type (b) is SBool and (a is True or a is False):
        return b == a
    return a is b


def isnot (a, b):
    return not_ (is_ (a, b))


def contains (x, c):
    """ x in c """
    if type (c) is Choice:
        return lift1 (lambda v: contains (x, v), c)
    if type (c) is SStr:
        return c.contains (x)
    if isinstance (c, (SDict, SSet, SFrozenSet, KeysView)):
        if type (c).__contains__ not in (SDict.__contains__, SSet.__contains__, SFrozenSet.__contains__, KeysView.__contains__):
            return x in c
        return c.contains (x)
    if isinstance (c, (dict, set, frozenset)):
        if issym (x) or type (x) is Choice:
            return mkbool (zor (*[g for g, k in find (c, x)]))
        return x in c
    if type (c) in (list, tuple):
        if not anysym (x) and not anysym (c) and not issym (x):
            return x in c
        return mkbool (zor (*[eqz (y, x) for y in c]))
    if type (c) is str and isinstance (x, Sym):
        return SStr ([ord (y) for y in c]).contains (x)
    if type (c) is bytes and isinstance (x, Sym):
        return SStr (list (c), True).contains (x)
    if isinstance (c, range) and isinstance (x, Sym):
        return contains (x, list (c)) if len (c) < 300 else x in c
    if type (c) is type and issubclass (c, enum.Enum) and isinstance (x, Sym):
        return contains (x, list (c))
    return x in c


def notin (x, c):
    return not_ (contains (x, c))


def and_ (a, fb):
    """ merged a and b; b is side-effect free by construction """
    if type (a) is SBool:
        E.speculate += 1
        try:
            b = fb ()
        except Exception:
            b = None
        finally:
            E.speculate -= 1
        if type (b) is SBool or b is True or b is False:
            return a & b
        if a:
            return fb ()
        return False
    if type (a) is Choice:
        if a:
            return fb ()
        return a
    return a and fb ()


def or_ (a, fb):
    if type (a) is SBool:
        E.speculate += 1
        try:
            b = fb ()
        except Exception:
            b = None
        finally:
            E.speculate -= 1
        if type (b) is SBool or b is True or b is False:
            return a | b
        if a:
            return True
        return fb ()
    if type (a) is Choice:
        if a:
            return a
        return fb ()
    return a or fb ()


def ifexp (c, ft, ff):
    """ merged conditional expression with side-effect free branches """
    if type (c) is Choice:
        c = mkbool (truth (c))
    if type (c) is SNum:
        c = mkbool (c.e != 0)
    if type (c) is SBool:
        E.speculate += 1
        try:
            a, b = ft (), ff ()
            ok = True
        except Exception:
            ok = False
        finally:
            E.speculate -= 1
        if ok and mergeable (a) and mergeable (b):
            return mk ([c.e, znot (c.e)], [a, b])
        return ft () if c else ff ()
    return ft () if c else ff ()


def mergeable (v):
    return isinstance (v, (SNum, SBool, Choice, int, float, bool, enum.Enum, type (None))) or (isinstance (v, (str, tuple)) and not anysym (v))


# -- subscripts ---------------------------------------------------------------

def getitem (o, k):
    to, tk = type (o), type (k)
    if to in (list, tuple) and tk is int:
        return o[k]
    if to is Choice:
        if all (isinstance (v, (tuple, str, list, range)) for g, v in o.opts ()):
            if tk is Choice:
                return lift2 (getitem, o, k)
            if isinstance (k, slice):
                k = concslice (k)
                return lift1 (lambda v: v[k], o)
            return lift1 (lambda v: getitem (v, k), o)
        live = [v for g, v in o.opts ()]
        if all (isinstance (v, dict) for v in live):
            if tk is Choice and k.guards is o.guards:
                return lift2 (getitem, o, k)
            return lift1 (lambda v: getitem (v, k), o)
        m = samemethod (live, '__getitem__')
        if m is not None:
            return m (o, k)
        return o.pick ()[k]
    if isinstance (k, slice):
        return o[concslice (k)]
    if tk is Choice:
        if isinstance (o, (list, tuple)) or to is str or to is range:
            return lift1 (lambda i: o[i], k)
        if to is SStr:
            return o[k]
        if isinstance (o, dict) and not isinstance (o, SDict):
            v = lookup (o, k)
            if v is MISSING:
                if hasattr (o, '__missing__'):
                    return o[k.pick ()]
                raise KeyError (k)
            return v
        return o[k]
    if isinstance (o, dict) and not isinstance (o, SDict) and issym (k):
        v = lookup (o, k)
        if v is MISSING:
            raise KeyError (k)
        return v
    if tk is SNum and isinstance (o, (list, tuple, str)) and not sym (o) and 0 < len (o) <= 300 and z3.is_int (k.e):
        n = len (o)
        if E.fork (z3.Or (k.e < -n, k.e >= n)):
            raise IndexError ('index out of range')
        guards = [z3.Or (k.e == i, k.e == i-n) for i in range (n)]
        return mk (guards, list (o))
    if isinstance (o, enum.EnumMeta) and isinstance (k, Sym):
        return o[conc (k)]
    return o[k]


def concslice (k):
    f = lambda x: x if x is None or type (x) is int else operator.index (x)
    return slice (f (k.start), f (k.stop), f (k.step))


# -- concretisation -------------------------------------------------------------

def conc (v, depth=6):
    """ deep concretisation by forking (all feasible values get explored) """
    t = type (v)
    if t in fastt:
        return v
    if t is Choice:
        return conc (v.pick (), depth)
    if t is SBool:
        return bool (v)
    if t is SNum or t is SStr:
        return v.concrete ()
    if t is Rope:
        return v.concrete ()
    if depth <= 0:
        return v
    if t is list:
        return [conc (x, depth-1) for x in v]
    if t is tuple:
        return tuple (conc (x, depth-1) for x in v)
    if isinstance (v, SDict):
        if v.nbox or anysym (v):
            return {conc (k, depth-1): conc (x, depth-1) for k, x in v.items ()}
        return v
    if isinstance (v, (SSet, SFrozenSet)):
        if v.nbox:
            return (set if isinstance (v, SSet) else frozenset) (conc (x, depth-1) for x in v)
        return v
    if t is dict and anysym (v):
        return {k: conc (x, depth-1) for k, x in v.items ()}
    return v


# -- f-strings ------------------------------------------------------------------

def fstr (*parts):
    """ parts: str or (value, conversion, spec) """
    out = []
    simple = True
    for p in parts:
        if type (p) is str:
            out.append (p)
        else:
            v, conv, spec = p
            if conv == 114:
                v = m_repr (v)
            elif conv == 115:
                v = m_str (v)
            elif conv == 97:
                v = ascii (conc (v))
            if type (spec) is not str:
                spec = conc (spec)
            if isinstance (v, Sym):
                out.append (m_format (v, spec))
            elif anysym (v) and E.lazyformat:
                out.append (Rope ([Fmt (v, spec)]))
            elif anysym (v):
                out.append (format (conc (v), spec))
            else:
                out.append (format (v, spec))
            if isinstance (out[-1], Sym):
                simple = False
    if simple:
        return ''.join (out)
    return concat (out)


class Rope (Sym):
    """ Text with opaque parts: list of str | SStr | Fmt """
    __slots__ = ('parts', )

    def __init__ (self, parts):
        self.parts = parts

    @property
    def __class__ (self):
        return str

    def concrete (self):
        return ''.join (p if type (p) is str else str (conc (p)) for p in self.parts)

    def __add__ (self, o): return concat ([self, o])
    def __radd__ (self, o): return concat ([o, self])
    def __eq__ (self, o):
        if not isinstance (o, str):
            return False
        return self.concrete () == o
    def __ne__ (self, o):
        return not_ (self == o)
    def __hash__ (self): return hash (self.concrete ())
    def __len__ (self): return len (self.concrete ())
    def __iter__ (self): return iter (self.concrete ())
    def __getitem__ (self, k): return self.concrete ()[k]
    def __contains__ (self, x): return x in self.concrete ()
    def __str__ (self): return self.concrete ()
    def __repr__ (self): return repr (self.concrete ()) if E.active else f'Rope({self.parts})'
    def __format__ (self, s): return format (self.concrete (), s)
    def __bool__ (self): return any (self.parts)

    def split (self, sep=None, maxsplit=-1):
        if sep is None and maxsplit == -1 and all (type (p) in (str, Fmt) for p in self.parts):
            r = self.splitspace ()
            if r is not None:
                return r
        # numbers contain neither of these
        if sep is None or maxsplit != -1 or not set (sep) & set (' :;=,\n\t%') or any (type (p) is SStr or (type (p) is Fmt and (p.spec.endswith ('%') or (' ' in sep and p.spec))) for p in self.parts):
            return self.concrete ().split (sep, maxsplit)
        out = [[]]
        for p in self.parts:
            if type (p) is str:
                first, *more = p.split (sep)
                out[-1].append (first)
                out.extend ([x] for x in more)
            else:
                out[-1].append (p)
        return [concat (x) for x in out]

    def splitspace (self):
        """ split at white space; None if padding of numbers matters """
        out = []
        glue = False
        for p in self.parts:
            if type (p) is str:
                x = p.split ()
                if glue and x and not p[0].isspace ():
                    out[-1].append (x.pop (0))
                out.extend ([y] for y in x)
                glue = p != '' and not p[-1].isspace ()
            else:
                if p.spec and (glue or not re.fullmatch (r'[ ]?[1-9]?[0-9]*(d|\.[0-9]+f)', p.spec)):
                    return None
                if glue:
                    out[-1].append (p)
                else:
                    out.append ([p])
                glue = True
        return [concat (x) for x in out]

    def startswith (self, p, *a):
        if not a and type (p) is str and self.parts and type (self.parts[0]) is str and (len (self.parts[0]) >= len (p) or not p.startswith (self.parts[0])):
            return self.parts[0].startswith (p)
        return self.concrete ().startswith (p, *a)

    def __getattr__ (self, n):
        if n.startswith ('__'):
            raise AttributeError (n)
        return getattr (self.concrete (), n)


class Fmt (Sym):
    """ format (value, spec) left unevaluated """
    __slots__ = ('v', 'spec')

    def __init__ (self, v, spec):
        self.v = v
        self.spec = spec

    @property
    def __class__ (self):
        return str

    def __str__ (self):
        return format (conc (self.v), self.spec)

    def concrete (self): return str (self)
    def __bool__ (self): return True


def concat (parts):
    flat = []
    for p in parts:
        if type (p) is Rope:
            flat.extend (p.parts)
        else:
            flat.append (p)
    out = []
    for p in flat:
        if type (p) is str and out and type (out[-1]) is str:
            out[-1] += p
        elif type (p) is not str or p:
            out.append (p)
    if all (type (p) in (str, SStr) for p in out):
        cs = []
        for p in out:
            cs.extend (elements (p))
        return mkstr (cs)
    return Rope (out)


_intspec = re.compile (r'^(#)?(0)?([0-9]+)?(,)?([dxXobc])?$')


def fmtint (v, spec):
    """ format a symbolic integer as symbolic string; number of digits is decided on the path """
    m = _intspec.match (spec)
    if m is None or not z3.is_int (v.e) or m.group (4):
        return None
    alt, zero, width, _, kind = m.groups ()
    width = int (width or 0)
    e = v.e
    if kind == 'c':
        return m_chr (v)
    base = {'x': 16, 'X': 16, 'o': 8, 'b': 2}.get (kind, 10)
    sign = ''
    if E.fork (e < 0):
        sign = '-'
        e = -e
    prefix = {'x': '0x', 'X': '0X', 'o': '0o', 'b': '0b'}.get (kind, '') if alt else ''
    # padding digits are computed like any other digit
    n = max (1, width-len (sign)-len (prefix)) if zero else 1
    while E.fork (e >= base**n):
        n += 1
        if n > 64:
            raise Unsupported ('long number')
    cs = []
    for k in reversed (range (n)):
        d = z3.simplify ((e / base**k) % base if k else e % base)
        if base <= 10:
            cs.append (SChar (z3.simplify (d+48), range (48, 48+base), (e, base, k, n)))
        else:
            cs.append (SChar (z3.simplify (z3.If (d < 10, d+48, d+(55 if kind == 'X' else 87))), b'0123456789ABCDEF' if kind == 'X' else b'0123456789abcdef', (e, base, k, n)))
    pad = width-n-len (sign)-len (prefix)
    head = sign+prefix
    if pad > 0:
        head = sign+prefix+'0'*pad if zero else ' '*pad+sign+prefix
    return mkstr ([ord (c) for c in head]+cs)


def m_hex (x): return m_format (x, '#x')
def m_oct (x): return m_format (x, '#o')
def m_bin (x): return m_format (x, '#b')


def mod (a, b):
    """ a % b, also for strings """
    if type (a) is str:
        args = b if isinstance (b, tuple) and not isinstance (b, Sym) else (b, )
        if any (anysym (x) for x in args):
            r = percent (a, args)
            if r is not None:
                return r
            return a % (tuple (conc (x) for x in b) if isinstance (b, tuple) else conc (b))
    return a % b


_percent = re.compile (r'%(?:(%)|(?:\(([^()]*)\))?(0)?([0-9]+)?([srdxXoc]))')


def percent (f, args):
    out, pos, args, named = [], 0, list (args), False
    for m in re.finditer (r'%', f):
        if m.start () < pos:
            continue
        p = _percent.match (f, m.start ())
        if p is None:
            return None
        out.append (f[pos:m.start ()])
        pos = p.end ()
        if p.group (1):
            out.append ('%')
            continue
        if p.group (2) is not None:
            if len (args) != 1 or not isinstance (args[0], dict):
                return None
            named = True
            x = getitem (args[0], p.group (2))
        elif not args:
            return None
        else:
            x = args.pop (0)
        conv = p.group (5)
        if conv in 'sr':
            if p.group (4):
                return None
            out.append (m_str (x) if conv == 's' else m_repr (x))
        else:
            out.append (m_format (x, (p.group (3) or '')+(p.group (4) or '')+conv) if not isinstance (x, str) else x)
    if args and not named:
        return None
    out.append (f[pos:])
    return concat (out)


def strformat (f, a, k):
    """ str.format with symbolic arguments """
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter ().parse (f):
        out.append (lit)
        if field is None:
            continue
        if spec and '{' in spec:
            return None
        if field == '':
            field = str (auto)
            auto += 1
        if not re.match (r'^\w+$', field):
            return None
        v = a[int (field)] if field.isdigit () else k[field]
        if conv == 's':
            v = m_str (v)
        elif conv:
            return None
        out.append (m_format (v, spec or ''))
    return concat (out)


def m_format (v, spec=''):
    if type (v) is SStr and spec == '':
        return v
    if type (v) is Rope and spec == '':
        return v
    if type (v) is Choice:
        if all (isinstance (x, prim) and not isinstance (x, Sym) for g, x in v.opts ()):
            r = lift1 (lambda x: format (x, spec), v)
            return r if type (r) is str else Fmt (r, '')
        return m_format (v.pick (), spec)
    if isinstance (v, SNum):
        if E.lazyformat:
            return Fmt (v, spec)
        if type (v) is SNum:
            r = fmtint (v, spec)
            if r is not None:
                return r
    if not isinstance (v, Sym):
        return format (v, spec)
    return format (conc (v), spec)


# -- builtin models -----------------------------------------------------------

def m_len (x):
    if type (x) is Choice:
        live = [v for g, v in x.opts ()]
        m = samemethod (live, '__len__')
        if m is not None and not any (isinstance (v, (dict, set, frozenset)) for v in live):
            return m (x)
        return lift1 (m_len, x)
    f = getattr (type (x), '__len__', None)
    if isinstance (f, types.FunctionType) and f.__module__ in instrumented:
        # may return a symbolic number
        r = f (x)
        if isinstance (r, Sym):
            return r
        return len (x) if not isinstance (r, int) else r
    return len (x)


def m_isinstance (x, t):
    if type (x) is Choice:
        return lift1 (lambda v: m_isinstance (v, t), x)
    if isinstance (t, tuple):
        t = tuple (t)
    return isinstance (x, t)


def m_hash (x):
    if type (x) is Choice:
        r = [v for g, v in x.opts ()]
        m = samemethod (r, '__hash__')
        if m is not None:
            old = hashmode[0]
            hashmode[0] = True
            try:
                h = m (x)
            finally:
                hashmode[0] = old
            if isinstance (h, SymHash):
                return h
            return SymHash (h) if isinstance (h, Sym) else h
        return SymHash (x)
    if isinstance (x, Sym):
        return SymHash (x)
    if isuserhash (type (x)):
        old = hashmode[0]
        hashmode[0] = True
        try:
            return type (x).__hash__ (x)
        finally:
            hashmode[0] = old
    if isinstance (x, (tuple, SFrozenSet)):
        if issym (x):
            return SymHash (x)
        return ConcHash (hash (x), x)
    return hash (x)


def wraphash (f):
    """ decorator for __hash__ in instrumented classes """
    @functools.wraps (f)
    def __hash__ (self):
        old = hashmode[0]
        hashmode[0] = True
        try:
            r = f (self)
        finally:
            hashmode[0] = old
        if isinstance (r, Sym) and not isinstance (r, SymHash):
            r = SymHash (r)
        if isinstance (r, SymHash) and not old:
            raise Unsupported ('native hash of a symbolic object')
        return r
    __hash__.symx_hash = True
    return __hash__


def m_str (*a, **k):
    if not a:
        return ''
    x = a[0]
    if len (a) > 1 or k:
        if type (x) is SStr:
            return x.decode (*a[1:], **k)
        return str (*a, **k)
    if type (x) in (SStr, Rope) and isinstance (x, str):
        return x
    if type (x) is Choice:
        if all (isinstance (v, prim) and not isinstance (v, Sym) for g, v in x.opts ()):
            return lift1 (str, x)
        return m_str (x.pick ())
    if isinstance (x, SNum) and E.lazyformat:
        return Rope ([Fmt (x, '')])
    if type (x) is SNum and z3.is_int (x.e):
        return fmtint (x, '')
    if not isinstance (x, (type, prim, Sym)):
        f = getattr (type (x), '__str__', None)
        if type (f) is types.FunctionType and f.__module__ in instrumented:
            return f (x)
        if f is object.__str__:
            return m_repr (x)
        if f in (BaseException.__str__, OSError.__str__) and len (x.args) == 1 and anysym (x.args[0]):
            return m_str (x.args[0])
    if anysym (x):
        return str (conc (x))
    return str (x)


def m_repr (x):
    if type (x) is Choice and all (isinstance (v, prim) and not isinstance (v, Sym) for g, v in x.opts ()):
        return lift1 (repr, x)
    if type (x) is SStr and not x.b:
        return strrepr (x)
    if not isinstance (x, (type, prim, Sym)):
        f = getattr (type (x), '__repr__', None)
        if type (f) is types.FunctionType and f.__module__ in instrumented:
            return f (x)
    if anysym (x):
        return repr (conc (x))
    return repr (x)


def strrepr (s):
    """ repr of a symbolic string """
    single = any (E.fork (el2z (c) == 39) if type (c) is not int else c == 39 for c in s.cs)
    double = any (E.fork (el2z (c) == 34) if type (c) is not int else c == 34 for c in s.cs)
    q = 34 if single and not double else 39
    out = [q]
    for c in s.cs:
        if type (c) is int:
            r = repr (chr (c)+'"') if q == 39 else repr (chr (c)+"'")
            out.extend (map (ord, r[1:-2]))
            continue
        special = [x for x in (9, 10, 13, 92, q) if c.dom is None or x in c.dom]
        for x in special:
            if E.fork (c.e == x):
                out.extend ([92, {9: 116, 10: 110, 13: 114}.get (x, x)])
                break
        else:
            if bool (charlift ('isprintable', str.isprintable, c)):
                out.append (c)
            else:
                if E.fork (c.e < 0x100):
                    k, w = 'x', '02x'
                elif E.fork (c.e < 0x10000):
                    k, w = 'u', '04x'
                else:
                    k, w = 'U', '08x'
                out.extend ([92, ord (k)])
                out.extend (elements (fmtint (SNum (c.e), w)))
    out.append (q)
    return mkstr (out)


def m_int (*a, **k):
    if not a:
        return 0
    x = a[0]
    if type (x) is SNum:
        return x.toint ()
    if type (x) is SBool:
        return x.num ()
    if type (x) is Choice and len (a) == 1 and not k:
        return lift1 (m_int, x)
    if type (x) is Rope and len (a) == 1 and not k:
        parts = [p for p in x.parts if type (p) is not str or p.strip ()]
        if len (parts) == 1 and type (parts[0]) is Fmt and type (parts[0].v) is SNum and z3.is_int (parts[0].v.e) and re.fullmatch (r'[ ]?[1-9]?[0-9]*d?', parts[0].spec):
            return parts[0].v
    if type (x) is SStr:
        base = a[1] if len (a) > 1 else k.get ('base', 10)
        return str2int (x, conc (base))
    return int (*[conc (y) for y in a], **{kk: conc (v) for kk, v in k.items ()})


def str2int (s, base):
    """ int(string, base) on symbolic digits (ASCII digits only are merged) """
    s = s.strip ()
    if type (s) is not SStr:
        return int (s, base)
    cs = s.cs
    val = z3.IntVal (0)
    if not cs or base not in (2, 8, 10, 16):
        return int (s.concrete (), base)
    # the very digits a number was turned into
    ds = list (cs)
    while len (ds) > 1 and type (ds[0]) is int and ds[0] == 48:
        ds.pop (0)
    f = getattr (ds[0], 'fmt', None)
    if f is not None and f[1] == base and f[3] == len (ds) and \
            all (getattr (c, 'fmt', None) is not None and c.fmt[0].eq (f[0]) and c.fmt[1] == base and c.fmt[2] == len (ds)-1-i and c.fmt[3] == f[3] for i, c in enumerate (ds)):
        return mknum (f[0])
    for c in cs:
        e = el2z (c)
        hi = min (base, 10)
        isd = z3.And (e >= 48, e < 48+hi)
        if base == 16:
            lo = z3.And (e >= 97, e < 103)
            up = z3.And (e >= 65, e < 71)
            if not E.fork (z3.Or (isd, lo, up)):
                return int (s.concrete (), base)
            d = z3.If (isd, e-48, z3.If (lo, e-87, e-55))
        else:
            if not E.fork (isd):
                if E.fork (z3.Or (z3.And (e >= 97, e < 123), z3.And (e >= 65, e < 91))):
                    raise ValueError (f'invalid literal for int() with base {base}')
                # sign, underscore, other digits or an error
                return int (s.concrete (), base)
            d = e-48
        val = val*base + d
    return mknum (val)


def m_float (*a):
    if not a:
        return 0.0
    x = a[0]
    if type (x) is SNum:
        return SNum (z3.ToReal (x.e)) if z3.is_int (x.e) else SNum (x.e)
    if type (x) is SBool:
        return m_float (x.num ())
    if type (x) is Choice:
        return lift1 (m_float, x)
    if type (x) is Rope:
        parts = [p.strip () if type (p) is str else p for p in x.parts]
        parts = [p for p in parts if p != '' or type (p) is not str]
        # the error of rounding in text ('.nf') is not modelled
        if len (parts) == 1 and type (parts[0]) is Fmt and re.fullmatch (r'[ ]?[1-9]?[0-9]*(d|\.[0-9]+f)?', parts[0].spec):
            return m_float (parts[0].v)
    if type (x) is SStr:
        return str2float (x)
    return float (conc (x))


def str2float (s):
    """ float(string) of symbolic ASCII digits, with a concrete point """
    s = s.strip ()
    if type (s) is not SStr:
        return float (s)
    val, scale, point, n = z3.RealVal (0), 1, False, 0
    for c in s.cs:
        if type (c) is int and c == 46 and not point:
            point = True
            continue
        e = el2z (c)
        if not E.fork (z3.And (e >= 48, e < 58)):
            # exponent, sign, infinity, error, …
            return float (s.concrete ())
        val = val*10 + z3.ToReal (e-48)
        n += 1
        if point:
            scale *= 10
    if not n:
        return float (s.concrete ())
    return SNum (z3.simplify (val/scale))


def m_bool (*a):
    if not a:
        return False
    x = a[0]
    if type (x) in (SBool, SNum, Choice):
        return mkbool (truth (x))
    return bool (x)


def m_decimal (*a, **k):
    if a and type (a[0]) is Choice:
        x = tonum (a[0])
        if x is not None:
            a = (mknum (x), )
    if a and type (a[0]) is SNum:
        e = a[0].e
        return SNum (z3.ToReal (e) if z3.is_int (e) else e, decimal.Decimal)
    if a and isinstance (a[0], Sym):
        return decimal.Decimal (conc (a[0]))
    return decimal.Decimal (*a, **k)


class SFraction:
    """ Fraction of a symbolic number, just enough to limit its denominator """
    def __init__ (self, x):
        self.x = x

    def limit_denominator (self, maxdenom=1000000):
        """ decided on the path: binary search among all candidates """
        maxdenom = operator.index (conc (maxdenom))
        if maxdenom > 64:
            raise Unsupported ('limit_denominator')
        if maxdenom < 1:
            raise ValueError ('max_denominator should be at least 1')
        whole = conc (m_floor (self.x))
        cand = sorted (set (fractions.Fraction (p, q) for q in range (1, maxdenom+1) for p in range (q+1)))
        x = self.x-whole
        lo, hi = 0, len (cand)-1
        # cand[lo] <= x <= cand[hi]
        while hi-lo > 1:
            mid = (lo+hi)//2
            if truth_fork (x < cand[mid]):
                hi = mid
            else:
                lo = mid
        a, b = cand[lo]+whole, cand[hi]+whole
        # the exact value is returned as it is; ties go to the smaller denominator
        da, db = self.x-a, b-self.x
        if truth_fork (da < db):
            return a
        if truth_fork (db < da):
            return b
        return a if a.denominator <= b.denominator else b


def truth_fork (c):
    return bool (c)


def m_fraction (*a, **k):
    if len (a) == 1 and not k and type (a[0]) is SNum:
        return SFraction (a[0])
    if any (isinstance (x, Sym) for x in a):
        return fractions.Fraction (*[conc (x) for x in a], **k)
    return fractions.Fraction (*a, **k)


def m_ord (x):
    if type (x) is SStr:
        if len (x.cs) != 1:
            raise TypeError ('ord() expected a character')
        return mknum (el2z (x.cs[0]))
    if type (x) is Choice:
        return lift1 (m_ord, x)
    return ord (x)


def m_chr (x):
    if type (x) is SNum:
        if E.fork (z3.Or (x.e < 0, x.e > 0x10ffff)):
            raise ValueError ('chr() arg not in range(0x110000)')
        return mkstr ([SChar (x.e)])
    if type (x) is Choice:
        return lift1 (m_chr, x)
    return chr (x)


def _minmax (op, a, k):
    key = k.get ('key')
    items = list (a[0]) if len (a) == 1 else list (a)
    if not items:
        if 'default' in k:
            return k['default']
        raise ValueError ('arg is an empty sequence')
    if key is None and any (isinstance (x, (SNum, Choice)) for x in items) and all (tonum (x) is not None for x in items):
        if all (type (x) is not SNum for x in items):
            f = min if op is operator.lt else max
            r = items[0]
            for x in items[1:]:
                r = lift2 (f, r, x)
            return r
        r = items[0]
        re = tonum (r)
        for x in items[1:]:
            xe = tonum (x)
            a1, b1 = _coerce (re, xe)
            c = (b1 < a1) if op is operator.lt else (b1 > a1)
            re = z3.If (c, b1, a1)
        return mknum (re)
    best = items[0]
    bk = call (key, best) if key else best
    for x in items[1:]:
        xk = call (key, x) if key else x
        if less (xk, bk) if op is operator.lt else less (bk, xk):
            best, bk = x, xk
    return best


def less (a, b):
    if isinstance (a, tuple) and isinstance (b, tuple) and not sym (a) and not sym (b):
        for x, y in zip (a, b):
            if eq (x, y):
                continue
            return bool (less (x, y))
        return len (a) < len (b)
    return bool (a < b)


def m_min (*a, **k):
    return _minmax (operator.lt, a, k)

def m_max (*a, **k):
    return _minmax (operator.gt, a, k)


class SortKey:
    __slots__ = ('k', )

    def __init__ (self, k):
        self.k = k

    def __lt__ (self, o):
        return less (self.k, o.k)


def m_sorted (it, *, key=None, reverse=False):
    items = list (it)
    ks = [call (key, x) if key else x for x in items]
    dec = sorted (range (len (items)), key=lambda i: SortKey (ks[i]), reverse=bool (reverse))
    return [items[i] for i in dec]


def m_listsort (l, *, key=None, reverse=False):
    l[:] = m_sorted (l, key=key, reverse=reverse)


def m_abs (x):
    return abs (x)


def m_sum (it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_all (it):
    r = []
    for x in it:
        t = truth (x)
        if isfalse (t):
            return mkbool (FALSE if not r else FALSE)
        if not istrue (t):
            r.append (t)
            if isinstance (it, types.GeneratorType) and not E.mergequant:
                if not E.fork (t):
                    return False
                r.pop ()
    return mkbool (zand (*r))


def m_any (it):
    r = []
    for x in it:
        t = truth (x)
        if istrue (t):
            return True
        if not isfalse (t):
            r.append (t)
            if isinstance (it, types.GeneratorType) and not E.mergequant:
                if E.fork (t):
                    return True
                r.pop ()
    return mkbool (zor (*r))


def m_round (x, n=None):
    if type (x) is Choice:
        return lift1 (lambda v: m_round (v, n), x)
    return round (x) if n is None else round (x, n)


def m_type (*a):
    if len (a) == 1:
        x = a[0]
        if isinstance (x, (Sym, SDict, SSet, SFrozenSet)):
            return x.__class__
        return type (x)
    name, bases, ns = a
    return type (name, tuple (SDict if b is dict else b for b in bases), ns)


def m_dict (*a, **k):
    return SDict (*a, **k)


def m_defaultdict (*a, **k):
    return SDefaultDict (*a, **k)


def m_print (*a, sep=' ', end='\n', file=None, flush=False):
    if file is None:
        file = sys.stdout
    out = []
    for i, x in enumerate (a):
        if i:
            out.append (' ' if sep is None else sep)
        out.append (m_str (x))
    out.append ('\n' if end is None else end)
    file.write (concat (out))


def m_getattr (o, name, *d):
    if isinstance (name, Sym):
        name = conc (name)
    return getattr (o, name, *d)


def m_iter (*a):
    return iter (*a)


def m_range (*a):
    return range (*[conc (x) for x in a])


def m_divmod (a, b):
    return a // b, a % b


def m_pow (a, b, m=None):
    if m is not None:
        return pow (conc (a), conc (b), m)
    return a ** b


LN = z3.Function ('ln', z3.RealSort (), z3.RealSort ())


def m_log (x, base=None):
    """ natural logarithm is uninterpreted: all that is known is that it is a function """
    if type (x) is Choice:
        return lift1 (lambda v: m_log (v, base), x)
    if type (x) is not SNum or (base is not None and isinstance (base, Sym)):
        return math.log (conc (x)) if base is None else math.log (conc (x), conc (base))
    if not x > 0:
        raise ValueError ('math domain error')
    e = z3.simplify (z3.ToReal (x.e) if z3.is_int (x.e) else x.e)
    E.opaque = True
    r = SNum (LN (e))
    return r if base is None else r/math.log (base)


def m_mathpow (a, b):
    if isinstance (a, Sym) or isinstance (b, Sym):
        r = a ** b
        return r if not isinstance (r, SNum) else m_float (r)
    return math.pow (a, b)


def m_isclose (a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if isinstance (a, Sym) or isinstance (b, Sym):
        d = abs (a-b)
        return or_ (d <= rel_tol*m_max (abs (a), abs (b)), lambda: d <= abs_tol)
    return math.isclose (a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def m_floor (x):
    if type (x) is Choice:
        return lift1 (math.floor, x)
    return math.floor (x)


def m_ceil (x):
    if type (x) is Choice:
        return lift1 (math.ceil, x)
    return math.ceil (x)


def m_list (*a):
    if a and isinstance (a[0], SDict) and a[0].nbox:
        return list (iter (a[0]))
    return list (*a)


def unicharfunc (name, f):
    def model (c, *args):
        if type (c) is SStr:
            if len (c.cs) != 1:
                raise TypeError (f'{name}() argument must be a unicode character')
            return charlift (name, f, c.cs[0], *args)
        if type (c) is Choice:
            return lift1 (lambda x: model (x, *args), c)
        return f (c, *args)
    return model


_active = {}
def normactive (form, single):
    """ ranges of characters which (alone or next to others) may change under normalisation """
    k = (form, single)
    if k not in _active:
        seconds = set (range (0x1161, 0x1176)) | set (range (0x11a8, 0x11c3))
        for i in range (0x110000):
            d = unicodedata.decomposition (chr (i))
            if d and not d.startswith ('<') and ' ' in d:
                seconds.add (int (d.split (' ')[1], 16))
        r = []
        for i in range (0x110000):
            c = chr (i)
            if unicodedata.normalize (form, c) != c or (not single and (unicodedata.combining (c) or i in seconds)):
                if r and r[-1][1] == i-1:
                    r[-1][1] = i
                else:
                    r.append ([i, i])
        _active[k] = r
    return _active[k]


def m_normalize (form, s):
    if type (s) is Choice:
        return lift1 (lambda x: m_normalize (form, x), s)
    if type (s) is SStr:
        if all (type (c) is int or c.dom is not None for c in s.cs):
            return unicodedata.normalize (form, s.concrete ())
        iv = normactive (form, len (s.cs) == 1)
        if not any (type (c) is int and any (a <= c <= b for a, b in iv) for c in s.cs):
            act = z3.Or ([z3.And (c.e >= a, c.e <= b) for c in s.cs if type (c) is not int for a, b in iv])
            if not E.fork (act):
                return s
        if len (s.cs) == 1:
            return unicodedata.normalize (form, s.concrete ())
        raise Unsupported ('normalize of an unbounded symbolic string')
    return unicodedata.normalize (form, s)


class SStringIO:
    """ io.StringIO/BytesIO on symbolic strings """
    def __init__ (self, initial='', newline='\n'):
        self.parts = []
        self.initial = initial
        self.pos = 0
        self.closed = False
        self.out = None

    def _buf (self):
        if self.out is not None:
            self.initial = concat2 (self.initial, self.out)
            self.out = None
        return self.initial

    def read (self, n=-1):
        b = self._buf ()
        if n is not None:
            n = operator.index (n)
        if n is None or n < 0:
            r = b[self.pos:]
        else:
            r = b[self.pos:self.pos+n]
        self.pos += len (r)
        return r

    def write (self, s):
        b = self._buf ()
        if self.pos == len (b):
            self.initial = concat ([b, s]) if not isinstance (s, bytes) else b+s
            self.pos = len (self.initial) if type (self.initial) is not Rope else self.pos
            if type (self.initial) is Rope:
                self.pos = RopePos
        else:
            self.initial = b[:self.pos]+s+b[self.pos+len (s):]
            self.pos += len (s)
        return len (s) if type (s) is not Rope else 0

    def getvalue (self):
        return self._buf ()

    def readline (self):
        b = self._buf ()[self.pos:]
        i = b.find ('\n') if not isinstance (b, bytes) else b.find (b'\n')
        r = b if i < 0 else b[:i+1]
        self.pos += len (r)
        return r

    def __iter__ (self): return self

    def __next__ (self):
        r = self.readline ()
        if not r:
            raise StopIteration
        return r

    def readlines (self): return list (self)
    def tell (self): return self.pos
    def seek (self, p, whence=0):
        n = len (self._buf ())
        self.pos = p if whence == 0 else (self.pos+p if whence == 1 else n+p)
        return self.pos
    def close (self): self.closed = True
    def flush (self): pass
    def __enter__ (self): return self
    def __exit__ (self, *a): self.close ()
    def seekable (self): return True
    def readable (self): return True
    def writable (self): return True
    def isatty (self): return False


class _RopePos (int):
    def __eq__ (self, o): return True
    __hash__ = int.__hash__
RopePos = _RopePos (0)


def m_stringio (initial='', newline='\n'):
    return SStringIO (initial if initial is not None else '')


def m_bytesio (initial=b''):
    if type (initial) is SStr:
        return SStringIO (initial)
    return io.BytesIO (initial)


class PickleFile:
    """ Stand-in for a binary file holding pickled objects """
    def __init__ (self, objs=()):
        self.objs = [Pickled (x) for x in objs]

    def put (self, o):
        self.objs.append (Pickled (o))

    def get (self):
        if not self.objs:
            raise EOFError ('Ran out of input')
        return self.objs.pop (0).load ()


def m_pickle_load (fd, **k):
    if hasattr (fd, 'symx_objs'):
        fd = fd.symx_objs
    if isinstance (fd, PickleFile):
        return fd.get ()
    return pickle.load (fd, **k)


def m_pickle_dump (o, fd, *a, **k):
    if hasattr (fd, 'symx_objs'):
        fd = fd.symx_objs
    if isinstance (fd, PickleFile):
        return fd.put (o)
    return pickle.dump (o, fd, *a, **k)


def m_pickle_dumps (o, *a, **k):
    return Pickled (o)


def m_pickle_loads (b, **k):
    if isinstance (b, Pickled):
        return b.load ()
    return pickle.loads (b, **k)


def m_partial (f, *a, **k):
    return functools.partial (wrapcallable (f), *a, **k)


def m_setattr (o, n, v):
    return setattr (o, conc (n), v)


def m_reduce (f, it, *init):
    f = wrapcallable (f)
    return functools.reduce (f, it, *init)


def m_chain_from_iterable (it):
    return itertools.chain.from_iterable (it)


def m_str_join (sep, it):
    return joinstr (sep, it)


def m_format_builtin (v, spec=''):
    return m_format (v, spec) if isinstance (v, Sym) else format (v, spec)


def m_opgetitem (o, k): return getitem (o, k)
def m_opcontains (c, x): return contains (x, c)


_resplit = regex.function ('split', re.split)


def m_resplit (pattern, string, *a, **k):
    p = pattern.pattern if isinstance (pattern, re.Pattern) else pattern
    if type (string) is not SStr or a or k:
        return _resplit (pattern, string, *a, **k)
    if p in (r'\s+', r'[\s]+', r'\s', r'[ \t]+'):
        chars = ' \t' if p == r'[ \t]+' else None
        out, cur, ws = [], [], False
        for c in string.cs:
            if bool (string._isws (c, chars)):
                if not ws or p == r'\s':
                    out.append (mkstr (cur))
                    cur = []
                ws = True
            else:
                cur.append (c)
                ws = False
        out.append (mkstr (cur))
        return out
    return regex.split (regex.compiled (pattern), string)


overrides = {}

def reg (f, m):
    overrides[f] = m

for f, m in [
        (len, m_len), (isinstance, m_isinstance), (hash, m_hash), (str, m_str), (repr, m_repr),
        (int, m_int), (float, m_float), (bool, m_bool), (ord, m_ord), (chr, m_chr), (hex, m_hex), (oct, m_oct), (bin, m_bin),
        (min, m_min), (max, m_max), (sum, m_sum), (all, m_all), (any, m_any),
        (round, m_round), (type, m_type), (dict, m_dict), (set, SSet), (frozenset, mkfrozen),
        (collections.defaultdict, m_defaultdict), (collections.Counter, SCounter), (collections.OrderedDict, m_dict),
        (print, m_print), (range, m_range), (divmod, m_divmod), (pow, m_pow), (sorted, m_sorted),
        (getattr, m_getattr), (setattr, m_setattr), (list, m_list), (format, m_format_builtin),
        (decimal.Decimal, m_decimal), (fractions.Fraction, m_fraction),
        (io.StringIO, m_stringio), (io.BytesIO, m_bytesio),
        (pickle.load, m_pickle_load), (pickle.dump, m_pickle_dump), (pickle.loads, m_pickle_loads), (pickle.dumps, m_pickle_dumps),
        (functools.partial, m_partial), (functools.reduce, m_reduce),
        (math.pow, m_mathpow), (math.log, m_log), (math.isclose, m_isclose), (math.floor, m_floor), (math.ceil, m_ceil), (math.trunc, m_int), (math.fsum, m_sum),
        (operator.eq, eq), (operator.ne, ne), (operator.is_, is_), (operator.not_, not_),
        (operator.getitem, m_opgetitem), (operator.contains, m_opcontains),
        (unicodedata.normalize, m_normalize), (re.split, m_resplit),
        ]:
    reg (f, m)
for n in ('match', 'fullmatch', 'search', 'findall', 'finditer', 'sub', 'subn'):
    reg (getattr (re, n), regex.function (n, getattr (re, n)))
for n in ('category', 'combining', 'bidirectional', 'name', 'decomposition', 'numeric', 'digit', 'decimal', 'mirrored', 'east_asian_width'):
    reg (getattr (unicodedata, n), unicharfunc (n, getattr (unicodedata, n)))

try:
    import numpy as _np
except ImportError:
    pass
else:
    def m_truedivide (a, b, *x, **k):
        if x or k or not (anysym (a) or anysym (b)):
            return _np.true_divide (conc (a), conc (b), *x, **k)
        la, lb = isinstance (a, (list, tuple, _np.ndarray)), isinstance (b, (list, tuple, _np.ndarray))
        if la and lb:
            return [u/v for u, v in zip (a, b)]
        if la:
            return [u/b for u in a]
        return [a/v for v in b] if lb else a/b
    reg (_np.true_divide, m_truedivide)

# C-level callables that treat their arguments as opaque objects
opaque = {
    map, filter, zip, enumerate, iter, next, tuple, reversed, callable, id, abs,
    itertools.chain, itertools.chain.from_iterable, itertools.product, itertools.groupby, itertools.islice,
    itertools.repeat, itertools.accumulate, itertools.combinations, itertools.permutations, itertools.count,
    itertools.starmap, itertools.takewhile, itertools.dropwhile, itertools.tee, itertools.zip_longest, itertools.cycle, itertools.pairwise,
    operator.add, operator.sub, operator.mul, operator.itemgetter, operator.attrgetter, operator.methodcaller,
    operator.truediv, operator.floordiv, operator.mod, operator.neg, operator.lt, operator.le, operator.gt, operator.ge, operator.abs,
    collections.deque, collections.namedtuple, slice, property, staticmethod, classmethod, super, object, Exception,
    hasattr, issubclass, memoryview, functools.wraps, functools.lru_cache, functools.cmp_to_key, functools.total_ordering,
    _copy.copy, _copy.deepcopy, vars, dir, globals, locals, delattr,
    }


# parsing the same YAML document again and again is slow
_yamlcache = {}

def m_yaml_load (fd):
    import yaml
    if hasattr (fd, 'read'):
        fd = fd.read ()
    if not isinstance (fd, (str, bytes)):
        return yaml.safe_load (fd)
    if fd not in _yamlcache:
        _yamlcache[fd] = yaml.safe_load (fd)
    return _yamlcopy (_yamlcache[fd])


def _yamlcopy (o):
    if isinstance (o, dict):
        return SDict ([(k, _yamlcopy (v)) for k, v in o.items ()])
    if isinstance (o, list):
        return [_yamlcopy (x) for x in o]
    return o


import yaml as _yaml
reg (_yaml.safe_load, m_yaml_load)


def wrapcallable (f):
    try:
        m = overrides.get (f)
    except TypeError:
        return f
    if m is not None:
        return m
    if isinstance (f, types.BuiltinMethodType) and isinstance (f.__self__, (str, bytes, dict, set, frozenset)) and not isinstance (f.__self__, (SDict, SSet)):
        return lambda *a, **k: call (f, *a, **k)
    if isinstance (f, types.MethodDescriptorType):
        return lambda *a, **k: call (f, *a, **k)
    return f


noop = set ()   # callables replaced by nothing (logging)


def call (f, /, *a, **k):
    tf = type (f)
    if tf is types.FunctionType:
        if f.__module__ in instrumented or not (f in noop):
            if f in overrides:
                return overrides[f] (*a, **k)
            return f (*a, **k)
        return None
    if tf is types.MethodType:
        if f.__func__ in noop:
            return None
        return f (*a, **k)
    if tf is Choice:
        return f (*a, **k)
    try:
        m = overrides.get (f)
    except TypeError:
        m = None
    if m is not None:
        return m (*a, **k)
    if isinstance (f, (types.BuiltinMethodType, types.MethodWrapperType)):
        s = f.__self__
        if s is not None and not isinstance (s, types.ModuleType):
            return callmethod (f, s, f.__name__, a, k)
    if tf is types.MethodDescriptorType or tf is types.WrapperDescriptorType:
        # e.g. str.lower
        if a and isinstance (a[0], Sym):
            if type (a[0]) is Choice:
                return getattr (a[0], f.__name__) (*a[1:], **k)
            return getattr (a[0], f.__name__) (*a[1:], **k)
        if a and tf is types.MethodDescriptorType:
            return call (getattr (a[0], f.__name__), *a[1:], **k)
        return f (*a, **k)
    if tf is LiftedMethod or isinstance (f, Sym):
        return f (*a, **k)
    ins = False
    try:
        ins = f in opaque
    except TypeError:
        pass
    if ins:
        if a:
            a = tuple (wrapcallable (x) if callable (x) and not isinstance (x, Sym) else x for x in a)
        return f (*a, **k)
    if isinstance (f, type):
        if f.__module__ in instrumented or issubclass (f, (BaseException, SDict)):
            return f (*a, **k)
        if isinstance (f, enum.EnumMeta):
            return enumcall (f, a, k)
        if issubclass (f, tuple):   # namedtuple
            return f (*a, **k)
        if getattr (f, 'symx_opaque', False):
            return f (*a, **k)
    if hasattr (f, 'symx_opaque') or not callable (f):
        return f (*a, **k)
    if any (anysym (x) for x in a) or any (anysym (x) for x in k.values ()):
        if isinstance (f, (types.BuiltinFunctionType, type)):
            if all (type (x) is Choice or not anysym (x) for x in a) and not any (anysym (x) for x in k.values ()) and getattr (f, '__module__', '') in ('unicodedata', 'math', 'html', 'binascii'):
                return liftn (f, list (a), k)
            return f (*[conc (x) for x in a], **{x: conc (y) for x, y in k.items ()})
    return f (*a, **k)


def enumcall (f, a, k):
    if len (a) == 1 and isinstance (a[0], Sym):
        x = a[0]
        if type (x) is SNum:
            ms = list (f)
            if E.fork (znot (zor (*[x.e == tonum (m.value) for m in ms]))):
                raise ValueError (f'not a valid {f.__name__}')
            return mk ([x.e == tonum (m.value) for m in ms], ms)
        return lift1 (f, x) if type (x) is Choice else f (conc (x))
    return f (*a, **k)


def callmethod (f, s, name, a, k):
    """ bound builtin method of native object s """
    if isinstance (s, (SDict, SSet, SFrozenSet)):
        return f (*a, **k)
    if isinstance (s, (str, bytes)):
        if name == 'join':
            items = list (a[0])
            if any (isinstance (x, Sym) for x in items):
                if any (type (x) in (Rope, Fmt) for x in items):
                    out = []
                    for i, x in enumerate (items):
                        if i:
                            out.append (s)
                        out.append (x)
                    return concat (out)
                if any (type (x) is Choice for x in items) and E.lazyformat:
                    out = []
                    for i, x in enumerate (items):
                        if i:
                            out.append (s)
                        out.append (Fmt (x, '') if type (x) is Choice else x)
                    return concat (out)
                return joinstr (s, items)
            return f (items)
        if any (anysym (x) for x in a) or any (anysym (x) for x in k.values ()):
            if name == 'format' and isinstance (s, str):
                r = strformat (s, a, k)
                if r is not None:
                    return r
            if name in ('format', 'format_map'):
                return f (*[conc (x) for x in a], **{x: conc (y) for x, y in k.items ()})
            if all (type (x) is Choice or not isinstance (x, Sym) for x in a) and name not in ('translate', ):
                return liftn (f, list (a), k)
            w = SStr ([ord (c) for c in s] if isinstance (s, str) else list (s), isinstance (s, bytes))
            return getattr (w, name) (*a, **k)
        if name == 'translate':
            return f (*a, **k)
        return f (*a, **k)
    if isinstance (s, dict):
        if a and (issym (a[0]) or type (a[0]) is Choice):
            if name == 'get':
                return lookup (s, a[0], a[1] if len (a) > 1 else k.get ('default'))
            if name == '__contains__':
                return contains (a[0], s)
            if name == '__getitem__':
                return getitem (s, a[0])
            if name in ('setdefault', 'pop', '__setitem__'):
                return f (conc (a[0]), *a[1:], **k)
        return f (*a, **k)
    if isinstance (s, (set, frozenset)):
        if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint'):
            r = getattr (SSet (s), name) (*a, **k)
            if isinstance (r, SSet) and isinstance (s, frozenset):
                return mkfrozen (r)
            return r
        return f (*a, **k)
    if isinstance (s, list):
        if name == 'sort':
            return m_listsort (s, **k)
        if name == 'index' and a and anysym (a[0]) or name in ('index', 'count', 'remove') and anysym (s):
            return f (*a, **k)
        return f (*a, **k)
    if isinstance (s, re.Pattern):
        if any (type (x) is SStr for x in a):
            return regex.method (s, name, a, k)
        if any (type (x) is Choice for x in a) and all (type (x) is Choice or type (x) in fastt for x in a) and not k:
            return liftn (f, list (a), k)
        return f (*[regex.native (x) for x in a], **k)
    if isinstance (s, io.IOBase):
        return f (*[conc (x) for x in a], **k)
    if isinstance (s, (int, float)) and any (anysym (x) for x in a):
        return f (*[conc (x) for x in a], **k)
    if isinstance (s, type):
        # alternative constructors, e.g. dict.fromkeys, chain.from_iterable, str.maketrans
        if s is dict and name == 'fromkeys':
            return SDict.fromkeys (*a, **k)
        if s is itertools.chain:
            return f (*a, **k)
        if any (anysym (x) for x in a):
            return f (*[conc (x) for x in a], **{x: conc (y) for x, y in k.items ()})
        return f (*a, **k)
    return f (*a, **k)


def m_maketrans (x, y=None, z=None):
    d = SDict ()
    if y is None:
        if not isinstance (x, dict):
            raise TypeError ('if you give only one argument to maketrans it must be a dict')
        for k in list (x):
            d[k if isinstance (k, (int, SNum)) else call (ord, k)] = x[k]
        return d
    if len (x) != len (y):
        raise ValueError ('the first two maketrans arguments must have equal length')
    for a, b in zip (x, y):
        d[call (ord, a)] = call (ord, b)
    for a in z or '':
        d[call (ord, a)] = None
    return d


overrides[str.maketrans] = m_maketrans


# -- displays ---------------------------------------------------------------------

def mkdict (pairs):
    """ dict display; pairs: list of (k, v) or (None-marker, mapping) """
    d = SDict ()
    for p in pairs:
        if len (p) == 1:
            d.update (p[0])
        else:
            d[p[0]] = p[1]
    return d


def dictcomp (gen):
    d = SDict ()
    for k, v in gen:
        d[k] = v
    return d


def mkset (items):
    return SSet (items)


E.speculate = 0
E.lazyformat = False
E.mergequant = False
