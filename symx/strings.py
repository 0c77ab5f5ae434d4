"""
Symbolic strings: a sequence whose length is fixed on the path, each element
being either a concrete code point (int) or an SChar (symbolic code point).
The same class serves bytes objects (kind=bytes).
"""
import functools
import unicodedata
import z3

from .core import E, Unsupported
from .values import *
from .values import zand, zor, znot, mkbool, mknum, tonum

MAXCP = 0x10FFFF


class SChar:
    """ Symbolic code point; dom: tuple of possible values or None (all) """
    __slots__ = ('e', 'dom', 'fmt')

    def __init__ (self, e, dom=None, fmt=None):
        self.e = e
        # digit of a formatted number: (number, base, position, number of digits)
        self.fmt = fmt
        self.dom = tuple (dom) if dom is not None else None


def ceq (a, b):
    """ z3 Bool: two elements are the same character """
    if type (a) is int:
        if type (b) is int:
            return TRUE if a == b else FALSE
        a, b = b, a
    if type (b) is int:
        if a.dom is not None and b not in a.dom:
            return FALSE
        return a.e == b
    if a is b or a.e.eq (b.e):
        return TRUE
    if a.dom is not None and b.dom is not None and not set (a.dom) & set (b.dom):
        return FALSE
    return a.e == b.e


@functools.lru_cache (None)
def _intervals (fname, args):
    """ partition of all code points by value of a character function """
    f = charfuncs[fname]
    d = {}
    last = None
    start = 0
    for i in range (MAXCP+2):
        if i <= MAXCP:
            try:
                v = f (chr (i), *args)
            except Exception as e:
                v = ('exc', type (e), str (e))
        else:
            v = object ()
        if i == 0:
            last = v
        elif v != last:
            d.setdefault (last, []).append ((start, i-1))
            start, last = i, v
            if len (d) > 80:
                raise Unsupported (f'character function {fname} has too many values')
    return d


charfuncs = {
    'category': unicodedata.category,
    'combining': unicodedata.combining,
    'bidirectional': unicodedata.bidirectional,
    'isspace': str.isspace,
    'isalpha': str.isalpha,
    'isalnum': str.isalnum,
    'isdigit': str.isdigit,
    'isdecimal': str.isdecimal,
    'isnumeric': str.isnumeric,
    'isprintable': str.isprintable,
    'isupper': str.isupper,
    'islower': str.islower,
    }


def charlift (fname, f, c, *args):
    """ apply character function to element c """
    if type (c) is int:
        return f (chr (c), *args)
    if c.dom is not None:
        opts, excs = {}, []
        for x in c.dom:
            try:
                v = f (chr (x), *args)
            except Exception as e:
                excs.append ((c.e == x, e))
                continue
            opts.setdefault (vkey (v), (v, []))[1].append (c.e == x)
        if excs:
            from .values import _raisefork
            _raisefork (excs)
        return mk ([zor (*gs) for v, gs in opts.values ()], [v for v, gs in opts.values ()])
    if fname not in charfuncs:
        # not bounded by the function, but possibly by the path (limited by pick)
        return f (chr (pickel (c)), *args)
    d = _intervals (fname, args)
    guards, vals = [], []
    for v, iv in d.items ():
        if isinstance (v, tuple) and v and v[0] == 'exc':
            raise Unsupported ('raising character function')
        guards.append (zor (*[(c.e == a if a == b else z3.And (c.e >= a, c.e <= b)) for a, b in iv]))
        vals.append (v)
    # the largest class is the complement of all others
    return mk (guards, vals)


def alleq (x, y):
    """ z3 Bool: two lists of elements of equal length are the same """
    for a, b in zip (x, y):
        if type (a) is int and type (b) is int and a != b:
            return FALSE
    return zand (*[ceq (a, b) for a, b in zip (x, y) if not (type (a) is int and type (b) is int)])


def matchat (cs, i, s):
    """ decide on this path whether s is at position i of cs """
    sym = False
    for k, b in enumerate (s):
        a = cs[i+k]
        if type (a) is int and type (b) is int:
            if a != b:
                return False
        else:
            sym = True
    return not sym or E.fork (alleq (cs[i:i+len (s)], s))


class SStr (Sym):
    __slots__ = ('cs', 'b')

    def __init__ (self, cs, b=False):
        self.cs = cs
        self.b = b

    @property
    def __class__ (self):
        return bytes if self.b else str

    def mk (self, cs):
        return mkstr (cs, self.b)

    def el (self, o):
        """ elements of other string-like or None """
        if type (o) is SStr:
            return o.cs if o.b == self.b else None
        if self.b:
            return list (o) if isinstance (o, (bytes, bytearray)) else None
        return [ord (x) for x in o] if isinstance (o, str) and not isinstance (o, Sym) else None

    def __len__ (self):
        return len (self.cs)

    def __bool__ (self):
        return bool (self.cs)

    def __iter__ (self):
        for c in self.cs:
            yield el2val (c, self.b)

    def __getitem__ (self, k):
        if isinstance (k, slice):
            k = slice (*[None if x is None else x.__index__ () for x in (k.start, k.stop, k.step)])
            return self.mk (self.cs[k])
        if type (k) is Choice or type (k) is SNum:
            k = k.__index__ ()
        c = self.cs[k]
        return el2val (c, self.b)

    def __add__ (self, o):
        if type (o) is Choice:
            o = concstr (o)
        e = self.el (o)
        if e is None:
            return NotImplemented
        return self.mk (self.cs + e)

    def __radd__ (self, o):
        if type (o) is Choice:
            o = concstr (o)
        e = self.el (o)
        if e is None:
            return NotImplemented
        return self.mk (e + self.cs)

    def __mul__ (self, n):
        return self.mk (self.cs * n.__index__ ())
    __rmul__ = __mul__

    def eqz (self, o):
        e = self.el (o)
        if e is None or len (e) != len (self.cs):
            return FALSE
        return alleq (self.cs, e)

    def __eq__ (self, o):
        if type (o) is Choice:
            return NotImplemented
        if not isinstance (o, (str, bytes)):
            return False
        return mkbool (self.eqz (o))

    def __ne__ (self, o):
        r = self.__eq__ (o)
        return r if r is NotImplemented else not_ (r)

    def _less (self, o, orequal):
        e = self.el (o)
        if e is None:
            return NotImplemented
        for a, b in zip (self.cs, e):
            if E.fork (ceq (a, b)):
                continue
            return E.fork (el2z (a) < el2z (b))
        return len (self.cs) < len (e) or (orequal and len (self.cs) == len (e))

    def __lt__ (self, o): return self._less (o, False)
    def __le__ (self, o): return self._less (o, True)
    def __gt__ (self, o): return not self._less (o, True)
    def __ge__ (self, o): return not self._less (o, False)

    def concrete (self):
        cs = [c if type (c) is int else pickel (c) for c in self.cs]
        return bytes (cs) if self.b else ''.join (map (chr, cs))

    def __hash__ (self):
        return hash (self.concrete ())

    def __str__ (self): return self.concrete () if not self.b else str (self.concrete ())
    def __repr__ (self):
        if not E.active:
            return f'SStr({[c if type (c) is int else c.e for c in self.cs]})'
        return repr (self.concrete ())
    def __format__ (self, spec): return format (self.concrete (), spec)
    def __bytes__ (self): return self.concrete ()
    def __buffer__ (self, flags): return memoryview (self.concrete ())
    def __mod__ (self, o): return self.concrete () % o

    def __contains__ (self, sub):
        return bool (self.contains (sub))

    def contains (self, sub):
        if self.b and isinstance (sub, int):
            return mkbool (zor (*[el2z (c) == tonum (sub) for c in self.cs]))
        e = self.el (sub)
        if e is None:
            if type (sub) is Choice:
                return lift1 (self.contains, sub)
            raise TypeError ('requires string as left operand')
        n = len (e)
        return mkbool (zor (*[alleq (self.cs[i:i+n], e) for i in range (len (self.cs)-n+1)]))

    # -- str API -----------------------------------------------------------
    def startswith (self, p, start=0, end=None):
        s = self.cs[start:end]
        if type (p) is tuple:
            return mkbool (zor (*[tobool (self.startswith (x, start, end)) for x in p]))
        e = self.el (concstr (p))
        if len (e) > len (s):
            return False
        return mkbool (alleq (s, e))

    def endswith (self, p, start=0, end=None):
        s = self.cs[start:end]
        if type (p) is tuple:
            return mkbool (zor (*[tobool (self.endswith (x, start, end)) for x in p]))
        e = self.el (concstr (p))
        if len (e) > len (s):
            return False
        return mkbool (zand (*[ceq (a, b) for a, b in zip (s[len (s)-len (e):], e)]))

    def _find (self, sub, start=0, end=None, rev=False):
        e = self.el (concstr (sub))
        n = len (self.cs)
        start, end, _ = slice (start, end).indices (n)
        r = range (start, end-len (e)+1)
        if rev:
            r = reversed (r)
        for i in r:
            if matchat (self.cs, i, e):
                return i
        return -1

    def find (self, *a): return self._find (*a)
    def rfind (self, *a): return self._find (*a, rev=True)

    def index (self, *a):
        r = self._find (*a)
        if r < 0:
            raise ValueError ('substring not found')
        return r

    def rindex (self, *a):
        r = self._find (*a, rev=True)
        if r < 0:
            raise ValueError ('substring not found')
        return r

    def count (self, sub):
        n, i, l = 0, 0, len (sub)
        while True:
            i = self._find (sub, i)
            if i < 0:
                return n
            n += 1
            i += max (l, 1)

    def replace (self, old, new, count=-1):
        old, new = concstr (old), concstr (new)
        o, w = self.el (old), self.el (new)
        if not o:
            raise Unsupported ('replace with empty pattern')
        out, i = [], 0
        while i < len (self.cs):
            if count != 0 and i+len (o) <= len (self.cs) and \
                    matchat (self.cs, i, o):
                out.extend (w)
                i += len (o)
                count -= 1
            else:
                out.append (self.cs[i])
                i += 1
        return self.mk (out)

    def _isws (self, c, chars):
        if chars is None:
            if self.b:
                ws = b' \t\n\r\x0b\x0c'
                return mkbool (zor (*[ceq (c, x) for x in ws]))
            return charlift ('isspace', str.isspace, c)
        return mkbool (zor (*[ceq (c, x) for x in self.el (chars)]))

    def lstrip (self, chars=None):
        i = 0
        while i < len (self.cs) and self._isws (self.cs[i], chars):
            i += 1
        return self.mk (self.cs[i:])

    def rstrip (self, chars=None):
        i = len (self.cs)
        while i > 0 and self._isws (self.cs[i-1], chars):
            i -= 1
        return self.mk (self.cs[:i])

    def strip (self, chars=None):
        r = self.lstrip (chars)
        return r.rstrip (chars)

    def split (self, sep=None, maxsplit=-1):
        out, cur, i = [], [], 0
        if sep is None:
            cs = self.cs
            while i < len (cs):
                if self._isws (cs[i], None):
                    if cur:
                        out.append (self.mk (cur))
                        cur = []
                    i += 1
                    continue
                if not cur and maxsplit >= 0 and len (out) >= maxsplit:
                    out.append (self.mk (cs[i:]))
                    return out
                cur.append (cs[i])
                i += 1
            if cur:
                out.append (self.mk (cur))
            return out
        s = self.el (concstr (sep))
        while i < len (self.cs):
            if (maxsplit < 0 or len (out) < maxsplit) and i+len (s) <= len (self.cs) and \
                    matchat (self.cs, i, s):
                out.append (self.mk (cur))
                cur = []
                i += len (s)
            else:
                cur.append (self.cs[i])
                i += 1
        out.append (self.mk (cur))
        return out

    def partition (self, sep):
        i = self._find (sep)
        if i < 0:
            return self, self.mk ([]), self.mk ([])
        n = len (sep)
        return self.mk (self.cs[:i]), self.mk (self.cs[i:i+n]), self.mk (self.cs[i+n:])

    def rpartition (self, sep):
        i = self._find (sep, rev=True)
        if i < 0:
            return self.mk ([]), self.mk ([]), self
        n = len (sep)
        return self.mk (self.cs[:i]), self.mk (self.cs[i:i+n]), self.mk (self.cs[i+n:])

    def removeprefix (self, p):
        return self.mk (self.cs[len (p):]) if self.startswith (p) else self

    def removesuffix (self, p):
        return self.mk (self.cs[:len (self.cs)-len (p)]) if len (p) and self.endswith (p) else self

    def splitlines (self, keepends=False):
        out, cur, i = [], [], 0
        ends = [10, 13] if self.b else [10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029]
        cs = self.cs
        while i < len (cs):
            if (cs[i] in ends if type (cs[i]) is int else E.fork (zor (*[ceq (cs[i], x) for x in ends]))):
                n = 1
                if i+1 < len (cs) and E.fork (zand (ceq (cs[i], 13), ceq (cs[i+1], 10))):
                    n = 2
                out.append (self.mk (cur + (cs[i:i+n] if keepends else [])))
                cur = []
                i += n
            else:
                cur.append (cs[i])
                i += 1
        if cur:
            out.append (self.mk (cur))
        return out

    def join (self, it):
        return joinstr (self, it)

    def translate (self, table):
        from . import rt
        out = []
        for c in self.cs:
            try:
                v = rt.getitem (table, mknum (el2z (c)))
            except LookupError:
                v = el2val (c, self.b)
            if type (v) is Choice:
                v = v.pick ()
            if v is None:
                continue
            if isinstance (v, int):
                out.append (v if type (v) is int else SChar (tonum (v)))
            else:
                out.extend (elements (v))
        return self.mk (out)

    def ljust (self, n, f=' '):
        return self + f*max (0, n-len (self.cs))

    def rjust (self, n, f=' '):
        return f*max (0, n-len (self.cs)) + self

    def zfill (self, n):
        return self.concrete ().zfill (n)

    def encode (self, encoding='utf-8', errors='strict'):
        if encoding.lower ().replace ('-', '') != 'utf8' or errors != 'strict':
            return self.concrete ().encode (encoding, errors)
        out = []
        for c in self.cs:
            if type (c) is int:
                out.extend (chr (c).encode ('utf-8'))
                continue
            e = c.e
            if E.fork (e < 0x80):
                out.append (c)
            elif E.fork (e < 0x800):
                out += [SChar (0xc0+e/64), SChar (0x80+e%64)]
            elif E.fork (e < 0x10000):
                if E.fork (z3.And (e >= 0xd800, e <= 0xdfff)):
                    raise UnicodeEncodeError ('utf-8', '?', 0, 1, 'surrogates not allowed')
                out += [SChar (0xe0+e/4096), SChar (0x80+(e/64)%64), SChar (0x80+e%64)]
            else:
                out += [SChar (0xf0+e/262144), SChar (0x80+(e/4096)%64), SChar (0x80+(e/64)%64), SChar (0x80+e%64)]
        return mkstr (out, True)

    def decode (self, encoding='utf-8', errors='strict'):
        if all (type (c) is int for c in self.cs):
            return bytes (self.cs).decode (encoding, errors)
        enc = encoding.lower ().replace ('-', '')
        if enc not in ('utf8', 'utf8sig', 'ascii') or errors not in ('strict', 'ignore', 'replace'):
            return self.concrete ().decode (encoding, errors)
        if enc == 'utf8sig':
            x = self
            if len (self.cs) >= 3 and E.fork (z3.And (*[el2z (a) == b for a, b in zip (self.cs, b'\xef\xbb\xbf')])):
                x = mkstr (self.cs[3:], True)
            return x.decode ('utf-8', errors)
        def fail ():
            if errors != 'strict':
                raise Unsupported ('decoding errors')
            raise UnicodeDecodeError (encoding, b'?', 0, 1, 'invalid')
        out = []
        l = self.cs
        i = 0
        while i < len (l):
            b = el2z (l[i])
            if E.fork (b < 0x80):
                out.append (l[i])
                i += 1
                continue
            if enc == 'ascii' or E.fork (z3.Or (b < 0xc2, b > 0xf4)):
                fail ()
            n, base = (1, 0xc0) if E.fork (b < 0xe0) else (2, 0xe0) if E.fork (b < 0xf0) else (3, 0xf0)
            if i+n >= len (l):
                fail ()
            v = b-base
            for k in range (1, n+1):
                t = el2z (l[i+k])
                if not E.fork (z3.And (t >= 0x80, t < 0xc0)):
                    fail ()
                v = v*64+(t-0x80)
            if n > 1:
                lo = 0x800 if n == 2 else 0x10000
                if not E.fork (z3.And (v >= lo, v <= MAXCP, z3.Or (v < 0xd800, v > 0xdfff))):
                    fail ()
            v = z3.simplify (v)
            out.append (v.as_long () if z3.is_int_value (v) else SChar (v))
            i += n+1
        return mkstr (out, False)

    def _allchars (self, name):
        if not self.cs:
            return False
        f = getattr (str, name)
        r = [charlift (name, f, c) for c in self.cs]
        return mkbool (zand (*[tobool (x) for x in r]))

    def isspace (self): return self._allchars ('isspace')
    def isalpha (self): return self._allchars ('isalpha')
    def isalnum (self): return self._allchars ('isalnum')
    def isdigit (self): return self._allchars ('isdigit')
    def isdecimal (self): return self._allchars ('isdecimal')
    def isnumeric (self): return self._allchars ('isnumeric')
    def isprintable (self): return self._allchars ('isprintable')

    def isascii (self):
        return mkbool (zand (*[el2z (c) < 128 for c in self.cs]))

    def _case (self, lo, d, fallback):
        """ ASCII only; anything else is decided character by character """
        r = []
        for c in self.cs:
            if type (c) is int and c < 128:
                r.append (ord (fallback (chr (c))))
            elif type (c) is not int and E.fork (c.e < 128):
                r.append (SChar (z3.If (z3.And (c.e >= lo, c.e < lo+26), c.e+d, c.e)))
            else:
                return fallback (self.concrete ())
        return mkstr (r, self.b)

    def lower (self): return self._case (65, 32, str.lower) if not self.b else self.concrete ().lower ()
    def upper (self): return self._case (97, -32, str.upper) if not self.b else self.concrete ().upper ()
    def title (self): return self.concrete ().title ()
    def format (self, *a, **k): return self.concrete ().format (*a, **k)
    def hex (self): return self.concrete ().hex ()


def el2val (c, b=False):
    if b:
        return c if type (c) is int else mknum (c.e)
    if type (c) is int:
        return chr (c)
    return SStr ([c])


def el2z (c):
    return z3.IntVal (c) if type (c) is int else c.e


def pickel (c):
    """ concretise one symbolic character """
    if c.dom is not None:
        for x in c.dom[:-1]:
            if E.fork (c.e == x):
                return x
        E.assume (c.e == c.dom[-1])
        return c.dom[-1]
    return E.pick (c.e).as_long ()


def mkstr (cs, b=False):
    if all (type (c) is int for c in cs):
        return bytes (cs) if b else ''.join (map (chr, cs))
    return SStr (cs, b)


def concstr (o):
    """ turn a Choice of strings into something with fixed length """
    if type (o) is Choice:
        gr = o.groups ()
        if all (isinstance (v, str) and not isinstance (v, Sym) for g, v in gr):
            o = splitby (o, lambda v: len (v))
            if type (o) is not Choice:
                return o
            gr = o.groups ()
            n = len (gr[0][1])
            cs = []
            for i in range (n):
                dom = sorted (set (ord (v[i]) for g, v in gr))
                if len (dom) == 1:
                    cs.append (dom[0])
                    continue
                d = {}
                for g, v in gr:
                    d.setdefault (ord (v[i]), []).append (g)
                e = None
                for cp, gs in d.items ():
                    e = z3.IntVal (cp) if e is None else z3.If (zor (*gs), z3.IntVal (cp), e)
                cs.append (SChar (z3.simplify (e), dom))
            return mkstr (cs)
        return o.pick ()
    return o


def elements (v):
    v = concstr (v)
    if type (v) is SStr:
        return list (v.cs)
    if isinstance (v, (bytes, bytearray)):
        return list (v)
    if not isinstance (v, str):
        raise TypeError (f'sequence item: expected str instance, {type (v).__name__} found')
    return [ord (x) for x in v]


def joinstr (sep, it):
    b = isinstance (sep, bytes)
    s = elements (sep)
    out = []
    for i, x in enumerate (it):
        if i:
            out.extend (s)
        if not isinstance (x, bytes if b else str):
            raise TypeError (f'sequence item {i}: expected {"bytes" if b else "str"} instance, {x.__class__.__name__} found')
        out.extend (elements (x))
    return mkstr (out, b)
