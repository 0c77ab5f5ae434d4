""" Streaming helpers: filter chains, characters of a stream, limits """
PRELOAD = ['lulua.text', 'lulua.util']
FUNCTIONS = ['lulua.text.apply', 'lulua.text.iterchar', 'lulua.text.filterLines', 'lulua.util.limit', 'lulua.util.first']
BOUNDS = {
    'quick': 'chains of 0-3 filters, 0-2 items, every filter yields 0-2 results (symbolic numbers) per item; streams of 0-5 symbolic characters delivered in portions of any size; sequences of 0-4 items, limits of 0-5',
    'thorough': 'streams of 0-7 characters, sequences of 0-6 items'}
OUTSIDE = 'larger inputs'


def chain (ctx, nfilters, nitems, total):
    """ depth first, in order """
    from lulua.text import apply
    items = [ctx.int (f'item{i}') for i in range (nitems)]
    # per filter: arguments and number of results of every call
    calls = [[] for k in range (nfilters)]
    amount = [[] for k in range (nfilters)]

    def make (k):
        def f (x):
            c = len (calls[k])
            n = ctx.fork (f'n{k}_{c}', [0, 1, 2]) if sum (map (len, calls)) < total else 1
            calls[k].append (x)
            amount[k].append (n)
            for j in range (n):
                yield x*3+(k+j)
        return f
    fs = [make (k) for k in range (nfilters)]
    got = list (apply (fs, items))
    exp = items
    for k in range (nfilters):
        ctx.check (len (calls[k]) == len (exp) and all (a == b for a, b in zip (calls[k], exp)), 'every result is passed on to the next filter, once and in order')
        exp = [x*3+(k+j) for x, n in zip (exp, amount[k]) for j in range (n)]
    ctx.check (len (got) == len (exp) and all (a == b for a, b in zip (got, exp)), 'all results in order')
    ctx.observe (got)


def lazy (ctx):
    """ items are not consumed before they are needed """
    from lulua.text import apply
    taken = []

    def source ():
        for i in range (4):
            taken.append (i)
            yield i
    n = ctx.fork ('n', [1, 2, 3])
    made = []

    def double (x):
        for y in (x, x+100):
            made.append (y)
            yield y
    it = iter (apply ([double, lambda x: iter ([x])], source ()))
    for i in range (n):
        x = next (it)
        ctx.check (x == (i//2)+100*(i % 2), 'order')
        ctx.check (len (taken) == i//2+1, 'no item is read ahead')
        ctx.check (len (made) == i+1, 'no result is read ahead')
    ctx.observe (n)


class Stream:
    """ delivers text in portions of any size """
    def __init__ (self, ctx, s, short):
        self.ctx, self.s, self.short, self.n = ctx, s, short, 0

    def read (self, n=-1):
        r = self.s if n is None or n < 0 else self.s[:n]
        if self.short and len (r) > 1:
            self.n += 1
            k = self.ctx.fork (f'portion{self.n}', list (range (1, len (r)+1)))
            r = r[:k]
        self.s = self.s[len (r):]
        return r


def chars (ctx, n, short):
    from lulua.text import iterchar
    s = ctx.str ('s', n)
    got = list (iterchar (Stream (ctx, s, short)))
    ctx.check (len (got) == n and all (a == b for a, b in zip (got, s)), 'every character, in order')
    ctx.observe (got)


def limited (ctx, n):
    from lulua.util import limit, first
    items = [ctx.int (f'x{i}') for i in range (n)]
    k = ctx.fork ('k', list (range (n+2)))
    it = iter (items)
    got = list (limit (it, k))
    ctx.check (len (got) == min (n, k) and all (a == b for a, b in zip (got, items)), 'the first items')
    rest = list (it)
    ctx.check (len (rest) == n-len (got) and all (a == b for a, b in zip (rest, items[len (got):])), 'no item beyond the limit is drawn')
    got = list (limit (items, k))
    ctx.check (len (got) == min (n, k), 'works with containers')
    if n:
        ctx.check (first (items) == items[0], 'first item')
    ctx.observe (got)


def cases (tier):
    q = tier == 'quick'
    r = []
    for f, i, t in ((0, 2, 0), (1, 0, 0), (1, 2, 2), (2, 1, 3), (2, 2, 4), (3, 1, 4))+(() if q else ((3, 2, 6), )):
        r.append ((f'chain{f}-{i}', chain, dict (nfilters=f, nitems=i, total=t)))
    r.append (('lazy', lazy, {}))
    for n in range (6 if q else 8):
        r.append ((f'chars{n}', chars, dict (n=n, short=False)))
        r.append ((f'short{n}', chars, dict (n=n, short=True)))
    for n in range (5 if q else 7):
        r.append ((f'limit{n}', limited, dict (n=n)))
    return r
