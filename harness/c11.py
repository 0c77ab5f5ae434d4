""" Corpus processing: result does not depend on how work is split up """
from .common import load, KEYBOARD

PRELOAD = ['lulua.text', 'lulua.stats', 'lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.text.writeWorker', 'lulua.text.apply', 'lulua.text.mapChars', 'lulua.stats.makeCombined', 'lulua.stats.combine', 'lulua.stats.unpickleAll', 'lulua.stats.updateDictOp',
    'lulua.stats.SimpleStats.update', 'lulua.stats.RunlenStats.update', 'lulua.stats.TriadStats.update', 'lulua.stats.WordStats.update', 'lulua.writer.Writer.type', 'lulua.keyboard.Button.__reduce__']
BOUNDS = {
    'quick': 'two or three texts of 1-3 symbolic characters (letters, a character which is mapped to two, blank, CR, LF, one unknown to the layout), split between one or two workers in any way, combined in either order; failing items; several texts per item',
    'thorough': 'three texts of up to 2 symbolic characters out of a larger set'}
OUTSIDE = 'queues and processes of the operating system (replaced by in-memory queues), progress display, pickle byte format'

CHARS = 'اأ \nx'
MORE = 'اأ \n\rx0'


FIELDS = {'simple': ['buttons', 'combinations', 'unknown'], 'runlen': ['perHandRunlenDist', 'fingerRunlenDist'], 'triads': ['triads'], 'words': ['words']}


class Queue:
    def __init__ (self, items=()):
        self.items = list (items)
        self.taken = 0

    def get (self, *a, **k):
        x = self.items[self.taken]
        self.taken += 1
        return x

    def put (self, x, *a, **k):
        self.items.append (x)


def typed (layout, text):
    """ events of typing a text on its own """
    from io import StringIO
    from lulua.writer import Writer
    from lulua.text import charMap
    t = ''.join ([charMap.get (c, c) for c in text])
    t = t.replace ('\r\n', '\n')
    return [e for m, e in Writer (layout).type (StringIO (t))]


def expected (layout, texts):
    """ statistics from one pass over everything """
    from lulua.stats import SimpleStats, RunlenStats, TriadStats, WordStats
    from lulua.writer import Writer, SkipEvent
    w = Writer (layout)
    r = {'simple': SimpleStats (w), 'runlen': RunlenStats (w), 'triads': TriadStats (w), 'words': WordStats (w)}
    for t in texts:
        for e in typed (layout, t):
            for s in r.values ():
                s.process (e)
        # texts do not affect each other
        for k in ('runlen', 'triads', 'words'):
            r[k].process (SkipEvent ('x'))
    return r


def work (layout, items, funcs, benchmark=False):
    from lulua.text import writeWorker
    inq, outq, statusq = Queue (items+[None]), Queue (), Queue ()
    writeWorker (layout, funcs, inq, outq, statusq, benchmark)
    return inq, outq, statusq


def same (ctx, got, want):
    ctx.check (set (got.keys ()) == set (want.keys ()), 'all kinds of statistics')
    for k, attrs in FIELDS.items ():
        for a in attrs:
            ctx.check (getattr (got[k], a) == getattr (want[k], a), f'{k} statistics ({a}) are the sum over all texts')


def combine (ctx, results):
    """ run the combine command on the given pickled results """
    import sys
    from types import SimpleNamespace
    from lulua.stats import combine
    out = ctx.picklefile ()
    old = sys.stdin, sys.stdout
    sys.stdin = SimpleNamespace (buffer=results)
    sys.stdout = SimpleNamespace (buffer=out)
    try:
        combine (SimpleNamespace (keyboard=KEYBOARD))
    finally:
        sys.stdin, sys.stdout = old
    return ctx.unpickle (out)


def texts (ctx, lens, alphabet):
    return [ctx.str (f't{i}', n, alphabet) for i, n in enumerate (lens)]


def split (ctx, lens, alphabet, layout):
    """ split between two workers """
    from lulua.text import filterLines
    name = layout
    layout = load (name)
    ts = texts (ctx, lens, alphabet)
    shares = [[], []]
    for i, t in enumerate (ts):
        shares[ctx.fork (f'w{i}', [0, 1]) if i else 0].append (t)
    results = []
    for s in shares:
        inq, outq, statusq = work (layout, s, [filterLines])
        ctx.check (inq.taken == len (s)+1, 'a worker takes its items and one end marker')
        ctx.check (len (outq.items) == 1, 'a worker gives one result')
        ctx.check (sum (statusq.items) == len (s), 'progress counts every item')
        r = outq.items[0]
        if isinstance (r, Exception):
            raise r
        ctx.check ((r is None) == (not s), 'a worker without items has no result')
        if r is not None:
            results.append (r)
    if ctx.fork ('order', [0, 1]):
        results = results[::-1]
    f = ctx.picklefile (results)
    ctx.newprocess ()
    got = combine (ctx, f)
    same (ctx, got, expected (load (name), ts))
    ctx.observe (sum (got['simple'].combinations.values ()), sum (got['simple'].unknown.values ()), sum (got['words'].words.values ()), sum (got['triads'].triads.values ()))


def again (ctx, alphabet):
    """ combining combined statistics again, and with itself """
    from lulua.text import filterLines
    layout = load ('ar-lulua')
    ts = texts (ctx, (2, 1), alphabet)
    results = [work (layout, [t], [filterLines])[1].items[0] for t in ts]
    first = combine (ctx, ctx.picklefile (results))
    both = combine (ctx, ctx.picklefile ([first, results[0]]))
    same (ctx, both, expected (layout, [ts[0], ts[0], ts[1]]))
    none = combine (ctx, ctx.picklefile ([]))
    same (ctx, none, expected (layout, []))


def several (ctx):
    """ filters may produce any number of texts per item """
    layout = load ('ar-lulua')
    n = ctx.fork ('n', [0, 1, 2])
    ts = [ctx.str (f't{i}', 1, CHARS) for i in range (n)]
    inq, outq, statusq = work (layout, [ts, 'end'], [lambda x: x if x != 'end' else ['\u0628 ']])
    same (ctx, outq.items[0], expected (layout, ts+['\u0628 ']))
    ctx.check (sum (statusq.items) == n+1, 'progress counts every text')
    ctx.observe (n)


def failing (ctx):
    """ errors are reported, not lost """
    layout = load ('ar-lulua')
    pos = ctx.fork ('pos', [0, 1, 2])
    items = ['a', 'b', 'c']
    def f (x):
        if x == items[pos]:
            raise ZeroDivisionError (pos)
        yield x
    inq, outq, statusq = work (layout, items, [f])
    ctx.check (len (outq.items) == 1 and isinstance (outq.items[0], ZeroDivisionError), 'the failure is the result')


def bench (ctx):
    """ benchmarking collects nothing """
    from lulua.text import filterLines
    layout = load ('ar-lulua')
    inq, outq, statusq = work (layout, [ctx.str ('t', 2, CHARS)], [filterLines], True)
    same (ctx, outq.items[0], expected (layout, []))
    ctx.check (sum (statusq.items) == 1, 'progress counts every text')


def cases (tier):
    quick = tier == 'quick'
    r = [('split21', split, dict (lens=(2, 1), alphabet=CHARS, layout='ar-lulua')),
        ('split111', split, dict (lens=(1, 1, 1), alphabet='ا \n', layout='ar-asmo663')),
        ('long', split, dict (lens=(3, 1), alphabet='اأ ', layout='ar-lulua')),
        ('cr', split, dict (lens=(3, ), alphabet='\r\nx', layout='ar-lulua')),
        ('again', again, dict (alphabet='اx ')), ('several', several, {}), ('failing', failing, {}), ('bench', bench, {})]
    if not quick:
        r += [('split22', split, dict (lens=(2, 2), alphabet=MORE, layout='ar-lulua')), ('split211', split, dict (lens=(2, 1, 1), alphabet=CHARS, layout='ar-osx')),
            ('long4', split, dict (lens=(4, 1), alphabet='اأ بx', layout='ar-lulua'))]
    return r
