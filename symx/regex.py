""" Regular expressions on symbolic strings: backtracking over the syntax tree of
the standard library; every test of a symbolic character is decided by forking """
import re
import z3
from re import _parser, _constants as K

from .core import E, Unsupported
from .values import Sym
from .strings import SStr, mkstr, charlift, elements, el2z

CATEGORY = {
    K.CATEGORY_DIGIT: ('isdecimal', False), K.CATEGORY_NOT_DIGIT: ('isdecimal', True),
    K.CATEGORY_SPACE: ('isspace', False), K.CATEGORY_NOT_SPACE: ('isspace', True),
    K.CATEGORY_WORD: ('isalnum', False), K.CATEGORY_NOT_WORD: ('isalnum', True),
    }
ASCII = {'isdecimal': '0123456789', 'isspace': ' \t\n\r\f\v', 'isalnum': ''.join (chr (x) for x in range (128) if chr (x).isalnum ())}


def decide (c, cond, f):
    """ is f (char)? """
    return f (c) if type (c) is int else E.fork (cond (c.e))


def category (c, cat, flags):
    name, neg = CATEGORY[cat]
    if flags & re.ASCII:
        r = anyof (c, map (ord, ASCII[name]))
    else:
        r = bool (charlift (name, getattr (str, name), c))
    if not r and name == 'isalnum':
        r = anyof (c, [95])
    return r != neg


def anyof (c, codes):
    codes = list (codes)
    return decide (c, lambda e: z3.Or (*[e == x for x in codes]), lambda x: x in codes)


def variants (code, flags):
    """ code points equal to code """
    if not flags & re.IGNORECASE:
        return [code]
    ch = chr (code)
    r = {code}
    for x in (ch.lower (), ch.upper ()):
        if len (x) == 1:
            r.add (ord (x))
    if ch.lower () in ('i', 'k', 's') and not flags & re.ASCII:
        r.update ({'i': {0x130, 0x131}, 'k': {0x212a}, 's': {0x17f}}[ch.lower ()])
    return sorted (r)


def inset (c, items, flags):
    neg, r = False, False
    for op, v in items:
        if op is K.NEGATE:
            neg = True
        elif r:
            continue
        elif op is K.LITERAL:
            r = anyof (c, variants (v, flags))
        elif op is K.RANGE:
            a, b = v
            if flags & re.IGNORECASE:
                if b-a > 200:
                    raise Unsupported ('case insensitive range')
                r = anyof (c, {x for y in range (a, b+1) for x in variants (y, flags)})
            else:
                r = decide (c, lambda e: z3.And (e >= a, e <= b), lambda x: a <= x <= b)
        elif op is K.CATEGORY:
            r = category (c, v, flags)
        else:
            raise Unsupported (f'regular expression {op}')
    return r != neg


class Matcher:
    def __init__ (self, pattern, cs):
        self.p = pattern
        self.cs = cs
        self.n = len (cs)

    def seq (self, items, i, pos, g, flags, k):
        """ match items[i:] at pos, then k (pos, groups); result of k or None """
        if i == len (items):
            return k (pos, g)
        op, v = items[i]
        rest = lambda p, g: self.seq (items, i+1, p, g, flags, k)
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            if pos >= self.n:
                return None
            c = self.cs[pos]
            if op is K.LITERAL:
                ok = anyof (c, variants (v, flags))
            elif op is K.NOT_LITERAL:
                ok = not anyof (c, variants (v, flags))
            elif op is K.ANY:
                ok = bool (flags & re.DOTALL) or not anyof (c, [10])
            else:
                ok = inset (c, v, flags)
            return rest (pos+1, g) if ok else None
        if op is K.BRANCH:
            for b in v[1]:
                r = self.seq (list (b), 0, pos, g, flags, rest)
                if r is not None:
                    return r
            return None
        if op is K.SUBPATTERN:
            group, add, rem, p = v

            def done (e, h):
                if group is not None:
                    h = dict (h)
                    h[group] = (pos, e)
                return rest (e, h)
            return self.seq (list (p), 0, pos, g, (flags | add) & ~rem, done)
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, p = v
            p = list (p)
            hi = None if hi is K.MAXREPEAT else int (hi)

            def more (count, pos, g):
                def again (e, h):
                    if e == pos and count >= lo:
                        return None
                    return more (count+1, e, h)
                take = lambda: self.seq (p, 0, pos, g, flags, again) if hi is None or count < hi else None
                stop = lambda: rest (pos, g) if count >= lo else None
                for f in (take, stop) if op is K.MAX_REPEAT else (stop, take):
                    r = f ()
                    if r is not None:
                        return r
                return None
            return more (0, pos, g)
        if op is K.AT:
            newline = lambda x: 0 <= x < self.n and anyof (self.cs[x], [10])
            word = lambda x: 0 <= x < self.n and category (self.cs[x], K.CATEGORY_WORD, flags)
            if v is K.AT_BEGINNING:
                ok = pos == 0 or (flags & re.MULTILINE and newline (pos-1))
            elif v is K.AT_BEGINNING_STRING:
                ok = pos == 0
            elif v is K.AT_END:
                ok = pos == self.n or ((flags & re.MULTILINE or pos == self.n-1) and newline (pos))
            elif v is K.AT_END_STRING:
                ok = pos == self.n
            elif v in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
                ok = (word (pos-1) != word (pos)) == (v is K.AT_BOUNDARY)
            else:
                raise Unsupported (f'regular expression {v}')
            return rest (pos, g) if ok else None
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, p = v
            if d != 1:
                raise Unsupported ('looking behind')
            r = self.seq (list (p), 0, pos, g, flags, lambda e, h: (e, h))
            if op is K.ASSERT:
                return rest (pos, r[1]) if r is not None else None
            return rest (pos, g) if r is None else None
        if op is K.GROUPREF:
            if v not in g:
                return None
            a, b = g[v]
            for x in self.cs[a:b]:
                if pos >= self.n:
                    return None
                y = self.cs[pos]
                if not (x == y if type (x) is int and type (y) is int else E.fork (el2z (x) == el2z (y))):
                    return None
                pos += 1
            return rest (pos, g)
        raise Unsupported (f'regular expression {op}')

    def at (self, pos, full=False, nonempty=False):
        def end (e, g):
            if (full and e != self.n) or (nonempty and e == pos):
                return None
            return e, g
        tree = _parser.parse (self.p.pattern, self.p.flags)
        return self.seq (list (tree), 0, pos, {}, self.p.flags, end)


class Match:
    symx_opaque = True

    def __init__ (self, p, s, cs, start, end, groups):
        self.re, self.string, self.cs = p, s, cs
        self.spans = dict (groups)
        self.spans[0] = (start, end)
        self.pos, self.endpos = 0, len (cs)

    def index (self, g):
        g = self.re.groupindex[g] if isinstance (g, str) else g
        if not 0 <= g <= self.re.groups:
            raise IndexError ('no such group')
        return g

    def group (self, *gs):
        r = tuple (self.one (g) for g in gs or (0, ))
        return r[0] if len (r) == 1 else r

    def one (self, g, default=None):
        x = self.spans.get (self.index (g))
        return mkstr (self.cs[x[0]:x[1]]) if x is not None else default

    __getitem__ = one

    def groups (self, default=None):
        return tuple (self.one (i, default) for i in range (1, self.re.groups+1))

    def groupdict (self, default=None):
        return {k: self.one (v, default) for k, v in self.re.groupindex.items ()}

    def span (self, g=0): return self.spans.get (self.index (g), (-1, -1))
    def start (self, g=0): return self.span (g)[0]
    def end (self, g=0): return self.span (g)[1]

    @property
    def lastindex (self):
        r = [(e, -g) for g, (a, e) in self.spans.items () if g]
        return -max (r)[1] if r else None


def compiled (p, flags=0):
    return p if isinstance (p, re.Pattern) else re.compile (p, flags)


def check (p, s):
    if s.b or isinstance (p.pattern, bytes):
        raise Unsupported ('regular expression on bytes')
    return list (s.cs)


def match (p, s, pos=0, endpos=None, full=False):
    cs = check (p, s)
    if pos or endpos is not None:
        raise Unsupported ('regular expression at a position')
    r = Matcher (p, cs).at (0, full)
    return None if r is None else Match (p, s, cs, 0, r[0], r[1])


def fullmatch (p, s, *a): return match (p, s, *a, full=True)


def finditer (p, s, *a):
    cs = check (p, s)
    if a:
        raise Unsupported ('regular expression at a position')
    m = Matcher (p, cs)
    pos = 0
    last = None
    while pos <= len (cs):
        # no empty match twice
        r = m.at (pos, nonempty=pos == last)
        if r is None:
            pos += 1
            continue
        yield Match (p, s, cs, pos, r[0], r[1])
        last = pos if r[0] == pos else None
        pos = r[0]


def search (p, s, *a):
    for m in finditer (p, s, *a):
        return m
    return None


def findall (p, s, *a):
    r = []
    for m in finditer (p, s, *a):
        g = m.groups ('')
        r.append (m.group () if not g else g[0] if len (g) == 1 else g)
    return r


def split (p, s, maxsplit=0):
    out, pos = [], 0
    cs = check (p, s)
    for i, m in enumerate (finditer (p, s)):
        if maxsplit and i >= maxsplit:
            break
        out.append (mkstr (cs[pos:m.start ()]))
        out.extend (m.groups ())
        pos = m.end ()
    out.append (mkstr (cs[pos:]))
    return out


def subn (p, repl, s, count=0):
    from . import rt
    out, pos, n = [], 0, 0
    cs = check (p, s)
    if not callable (repl):
        if isinstance (repl, SStr):
            raise Unsupported ('symbolic replacement')
        if '\\' in repl:
            t = _parser.parse_template (repl, p)
            t = t if isinstance (t, list) else list (t)
            repl = lambda m: rt.concat ([x if isinstance (x, str) else m.one (x, '') for x in t if x != ''])
    for m in finditer (p, s):
        if count and n >= count:
            break
        out.extend (cs[pos:m.start ()])
        x = rt.call (repl, m) if callable (repl) else repl
        out.extend (elements (x))
        pos = m.end ()
        n += 1
    out.extend (cs[pos:])
    return mkstr (out), n


def sub (p, repl, s, count=0): return subn (p, repl, s, count)[0]


METHODS = dict (match=match, fullmatch=fullmatch, search=search, findall=findall, finditer=finditer, split=split, sub=sub, subn=subn)


def native (x):
    """ argument of the real implementation """
    from . import rt
    return x if callable (x) and not isinstance (x, Sym) else rt.conc (x)


def method (p, name, a, k):
    """ method of a compiled pattern """
    from . import rt
    x = a[1:2] if name in ('sub', 'subn') else a[0:1]
    if x and type (x[0]) is SStr:
        return METHODS[name] (p, *a, **k)
    return getattr (p, name) (*[native (y) for y in a], **k)


def function (name, real):
    """ function of the module re """
    def f (pattern, *a, **k):
        from . import rt
        x = a[1:2] if name in ('sub', 'subn') else a[0:1]
        if x and type (x[0]) is SStr and type (pattern) in (str, re.Pattern):
            flags = k.pop ('flags', 0)
            n = 3 if name in ('sub', 'subn') else 2 if name == 'split' else 1
            if len (a) > n:
                flags, a = a[n], a[:n]
            return METHODS[name] (compiled (pattern, flags), *a, **k)
        return real (rt.conc (pattern), *[native (y) for y in a], **k)
    return f
