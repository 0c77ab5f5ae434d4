""" Figures derived from statistics """
from .common import load, hand, press, patched, Quiet, KEYBOARD
from . import spec_carpalx

PRELOAD = ['lulua.stats', 'lulua.plot', 'lulua.writer', 'lulua.layout', 'lulua.keyboard', 'lulua.carpalx', 'lulua.util']
FUNCTIONS = ['lulua.stats.layoutstats', 'lulua.stats.keyHeatmap', 'lulua.stats.corpusStats', 'lulua.plot.triadfreq', 'lulua.plot.triadEffortData', 'lulua.plot.letterfreq', 'lulua.plot.triadEffortPlot', 'lulua.stats.pretty', 'lulua.stats.latinImeDict', 'lulua.carpalx.Carpalx.addTriad', 'lulua.carpalx.Carpalx.effort', 'lulua.util.limit']
BOUNDS = {
    'quick': 'shipped layouts ar-lulua and ar-asmo663; any (integer) number of presses of 6 keys, of 4 combinations including hamza and of 2 words; any weight of 2-4 triads, two of which type the same text; any cutoff, limits 0-3, all orders',
    'thorough': 'same with all shipped Arabic layouts, and 5 triads'}
OUTSIDE = 'ties between triads of equal weight or effort; statistics without any press or without any alef; appearance of plots (bokeh is replaced by a recorder); values of logarithms (an uninterpreted function), rounding of printed percentages'


class Stdout:
    def __init__ (self, buffer):
        self.buffer = buffer
        self.parts = []

    def write (self, s):
        self.parts.append (s)

    def flush (self):
        pass


class Yaml:
    """ does not serialise """
    def __init__ (self, meta=None):
        self.meta = meta
        self.dumped = []

    def dump (self, data, stream=None, *a, **k):
        self.dumped.append (data)

    safe_dump = dump

    def safe_load (self, fd):
        return self.meta


class Namespace:
    pass


def run (ctx, mod, func, stats, meta=None, **args):
    """ run a command with statistics as standard input; returns (lines, pickle file, YAML documents) """
    import sys, importlib
    m = importlib.import_module ('lulua.'+mod)
    a = Namespace ()
    a.keyboard = KEYBOARD
    for k, v in args.items ():
        setattr (a, k, v)
    out = Stdout (ctx.picklefile ())
    stdin = Namespace ()
    stdin.buffer = ctx.picklefile ([stats])
    y = Yaml (meta)
    old = sys.stdin, sys.stdout
    sys.stdin, sys.stdout = stdin, out
    try:
        with patched (m, yaml=y, logging=Quiet ()):
            getattr (m, func) (a)
    finally:
        sys.stdin, sys.stdout = old
    return out.parts, out.buffer, y.dumped


def empty (layout):
    from lulua.stats import SimpleStats, RunlenStats, TriadStats, WordStats
    from lulua.writer import Writer
    w = Writer (layout)
    return {'simple': SimpleStats (w), 'runlen': RunlenStats (w), 'triads': TriadStats (w), 'words': WordStats (w)}, w


KEYS = ['Dl1', 'Dl4', 'Er5', 'El_shift', 'Fr_space', 'CD_ret', 'Fl_space']


ALEF, YAH, WAW, ABOVE, BELOW = '\u0627', '\u064a', '\u0648', '\u0654', '\u0655'


def hands (ctx, layout, keys):
    name = layout
    layout = load (name)
    s, w = empty (layout)
    kb = layout.keyboard
    n = {k: ctx.int ('n'+k, 1, 10**9) for k in keys}
    for k, v in n.items ():
        s['simple'].buttons[kb[k]] = v
    # the share of hamza is undefined without any alef
    for l in layout.layers:
        for b, t in l.layout.items ():
            if t == ALEF:
                s['simple'].combinations[press (kb, b.name, [x.name for x in l.modifier[0]])] = ctx.int ('alef', 1, 10**9)
    lines, f, y = run (ctx, 'stats', 'layoutstats', s, layout=name)
    r = ctx.unpickle (f)
    total = 0
    lr = {'L': 0, 'R': 0}
    for k, v in n.items ():
        total = total+v
        lr[hand (k)] = lr[hand (k)]+v
    from lulua.layout import LEFT, RIGHT
    ctx.check (r['layout'] == name and r['buttonPresses'] == total, 'number of presses')
    ctx.check (r['hands'].get (LEFT, 0) == lr['L'] and r['hands'].get (RIGHT, 0) == lr['R'], 'presses per hand')
    ctx.close (r['asymmetry'], (lr['L']-lr['R'])/total, 'asymmetry')
    fingers = {}
    for k, v in n.items ():
        h, x = w.getHandFinger (kb[k])
        fingers[(int (h), int (x))] = fingers.get ((int (h), int (x)), 0)+v
    got = {(int (a), int (b)): v for (a, b), v in r['fingers'].items () if not (isinstance (v, int) and v == 0)}
    ctx.check (len (got) == len (fingers), 'fingers used')
    for k, v in fingers.items ():
        ctx.check (k in got and got[k] == v, 'presses per finger')
    ctx.observe (total)


def hamza (ctx, layout):
    name = layout
    layout = load (name)
    s, w = empty (layout)
    kb = layout.keyboard
    s['simple'].buttons[kb['Dl1']] = 5
    texts = [ALEF+ABOVE, ALEF+BELOW, YAH+ABOVE, WAW+ABOVE]
    count = {}
    total = 0
    i = 0
    # every way to type a text with a single combination
    for l in layout.layers:
        for b, t in l.layout.items ():
            if t in texts or t == ALEF or b.name in ('Dl2', 'Fl_space'):
                for m in l.modifier:
                    if ctx.fork (f'used{i}', [True, False]) if i > 2 else True:
                        v = ctx.int (f'n{i}', 1, 10**9)
                        s['simple'].combinations[press (kb, b.name, [x.name for x in m])] = v
                        count[t] = count.get (t, 0)+v
                        total = total+v
                    i += 1
    ctx.assume (sum (count.get (x, 0) for x in (ALEF, ALEF+ABOVE, ALEF+BELOW)) > 0)
    lines, f, y = run (ctx, 'stats', 'layoutstats', s, layout=name)
    r = ctx.unpickle (f)
    x = sum (count.get (t, 0) for t in texts)
    ctx.close (r['hamzaImpact'], x/total, 'share of letters with hamza')
    x = sum (count.get (t, 0) for t in texts[:2])
    ctx.close (r['hamzaOnAlef'], x/(x+count.get (ALEF, 0)), 'share of alef with hamza')
    ctx.observe (total)


def heatmap (ctx, layout):
    name = layout
    layout = load (name)
    s, w = empty (layout)
    kb = layout.keyboard
    n = {k: ctx.int ('n'+k, 1, 10**9) for k in KEYS[:4]}
    for k, v in n.items ():
        s['simple'].buttons[kb[k]] = v
    lines, f, y = run (ctx, 'stats', 'keyHeatmap', s, layout=name)
    ctx.check (len (y) == 1, 'one document')
    ctx.check (set (y[0]['buttons'].keys ()) == set (n), 'keys')
    total = 0
    for k, v in n.items ():
        total = total+v
        ctx.check (y[0]['buttons'][k] == v, 'number of presses of every key')
    ctx.check (y[0]['total'] == total, 'total number of presses')
    ctx.observe (total)


def corpus (ctx):
    layout = load ('ar-lulua')
    s, w = empty (layout)
    kb = layout.keyboard
    a, b = ctx.int ('a', 0, 10**9), ctx.int ('b', 0, 10**9)
    s['simple'].combinations[press (kb, 'Dl1')] = a
    s['simple'].combinations[press (kb, 'Dl1', ['El_shift'])] = b
    s['simple'].buttons[kb['Dl1']] = a+b
    s['simple'].unknown['x'] = 3
    c, d = ctx.int ('c', 0, 10**9), ctx.int ('d', 0, 10**9)
    s['words'].words['\u0628'] = c
    s['words'].words['\u0628\u0627'] = d
    meta = {'name': ctx.str ('name', 2), 'source': 7}
    lines, f, y = run (ctx, 'stats', 'corpusStats', s, meta=dict (meta), metadata=None)
    ctx.check (len (y) == 1, 'one document')
    ctx.check (y[0]['name'] == meta['name'] and y[0]['source'] == 7 and len (y[0]) == 3, 'metadata is kept')
    ctx.check (y[0]['stats']['characters'] == a+b and y[0]['stats']['words'] == c+d, 'characters and words')
    ctx.check (any ('---' in x for x in lines if type (x) is str), 'documents are separated')
    ctx.observe (a+b, c+d)


# two ways to type the same text, and others
TRIADS = [[('Dl1', ()), ('Dr6', ('El_shift', )), ('Dl2', ())], [('Dl1', ()), ('Dr6', ('Er_shift', )), ('Dl2', ())], [('Cl4', ()), ('Dl2', ()), ('Dr5', ())], [('Dr4', ()), ('Dr5', ()), ('Dr6', ())], [('El5', ()), ('Er5', ()), ('Dl1', ())]]


def triads (ctx, layout, n):
    """ statistics, [(text, weight, effort)] """
    from lulua.carpalx import models
    s, w = empty (layout)
    kb = layout.keyboard
    weight = [ctx.int (f'w{i}', 1, 10**9) for i in range (n)]
    r = []
    hf = w.getHandFinger
    row = kb.getRow
    for t, v in zip (TRIADS[:n], weight):
        combs = [press (kb, k, m) for k, m in t]
        s['triads'].triads[tuple (combs)] = v
        text = ''
        for c in combs:
            text = text+layout.getText (c)
        e = spec_carpalx.effort ([[kb[k] for k in m]+[kb[b]] for b, m in t], hf, row, models['mod01'])
        for i in range (len (r)):
            if r[i][0] == text:
                x = r[i]
                r[i] = (text, x[1]+v, x[2]+v*e)
                break
        else:
            r.append ((text, v, v*e))
    return s, [(t, v, e/v) for t, v, e in r]


def permutation (ctx, rows, key):
    """ rows in descending order """
    out = []
    for r in rows:
        i = 0
        while i < len (out) and key (out[i]) > key (r):
            i += 1
        if i < len (out):
            ctx.assume (key (out[i]) != key (r))
        out.insert (i, r)
    return out


def freq (ctx, layout, n, sort):
    name = layout
    layout = load (name)
    s, rows = triads (ctx, layout, n)
    cutoff = ctx.real ('cutoff', 0, 1)
    reverse = ctx.fork ('reverse', [False, True])
    limit = ctx.fork ('limit', [0, 1, 2, 3])
    total = 0
    for r in rows:
        total = total+r[1]
    top = []
    seen = 0
    for r in permutation (ctx, rows, lambda x: x[1]):
        if not seen < total*cutoff:
            break
        top.append (r)
        seen = seen+r[1]
    key = {'weight': lambda x: x[1], 'effort': lambda x: x[2], 'combined': lambda x: x[1]*x[2]*x[2]}[sort]
    top = permutation (ctx, top, key)
    if not reverse:
        top = top[::-1]
    if limit:
        top = top[:limit]
    lines, f, y = run (ctx, 'plot', 'triadfreq', s, layout=name, cutoff=cutoff, reverse=reverse, limit=limit, sort=sort)
    text = ''
    for x in lines:
        text = text+x
    got = text.split ('\n')
    ctx.check (len (got) == len (top)+1, 'number of triads')
    from lulua.util import displayText
    for l, (t, v, e) in zip (got, top):
        a, b, c = l.split (' ')
        ctx.check (a == ''.join (displayText (x) for x in t), 'text of triads, in order')
        ctx.close (float (b), v, 'weight of triads')
        ctx.close (float (c), e, 'effort of triads')
    ctx.observe (len (top))


def effort (ctx, layout, n):
    name = layout
    layout = load (name)
    s, rows = triads (ctx, layout, n)
    rows = permutation (ctx, rows, lambda x: x[1])
    lines, f, y = run (ctx, 'plot', 'triadEffortData', s, layout=name)
    r = ctx.unpickle (f)
    x, y = list (r['x']), list (r['y'])
    ctx.check (len (x) == len (y) and len (x) >= 2, 'points')
    ctx.check (r['layout'].name == layout.name, 'layout')
    W, E = 0, 0
    points = []
    for t, v, e in rows:
        W, E = W+v, E+v*e
        points.append ((W, E))
    width = W//200
    # points of the curve which are far enough from the last one
    want = []
    for a, b in points:
        if not want or a >= want[-1][0]+width:
            want.append ((a, b))
    want.append (points[-1])
    ctx.check (len (x) == len (want), 'number of points')
    for i, (a, b) in enumerate (want):
        ctx.close (x[i]*W, a, 'share of the most frequent triads')
        ctx.close (y[i]*E, b, 'their share of the effort')
    ctx.observe (len (x))


class Anything:
    """ stands in for plotting """
    log = None

    def __init__ (self, *a, **k):
        pass

    def __getattr__ (self, n):
        if n.startswith ('__'):
            raise AttributeError (n)
        return Anything ()

    def __call__ (self, *a, **k):
        return Anything ()

    def __iter__ (self):
        return iter (())


class Figure (Anything):
    figures = []

    def __init__ (self, *a, **k):
        self.__dict__['args'] = k
        self.__dict__['lines'] = []
        Figure.figures.append (self)

    def line (self, *a, **k):
        self.lines.append ((a, k))
        return Anything ()


class Source:
    sources = []

    def __init__ (self, data=None, **k):
        self.data = data
        Source.sources.append (self)


class Palette:
    def __getitem__ (self, n):
        return [f'#{i:06x}' for i in range (n)]


def bokeh ():
    import types
    Figure.figures = []
    Source.sources = []
    r = {}
    for m, d in [('bokeh', {}), ('bokeh.plotting', dict (figure=Figure)), ('bokeh.models', dict (ColumnDataSource=Source, LinearAxis=Anything, Range1d=Anything, RadioButtonGroup=Anything, CustomJS=Anything, Slope=Anything)), ('bokeh.embed', dict (json_item=lambda *a: {})), ('bokeh.palettes', dict (Set3=Palette ())), ('bokeh.layouts', dict (column=lambda *a: None))]:
        r[m] = types.ModuleType (m)
        for k, v in d.items ():
            setattr (r[m], k, v)
    return r


class Modules:
    def __init__ (self, mods):
        self.mods = mods

    def __enter__ (self):
        import sys
        self.old = {k: sys.modules.get (k) for k in self.mods}
        for k, v in self.mods.items ():
            sys.modules[k] = v

    def __exit__ (self, *a):
        import sys
        for k, v in self.old.items ():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


class Json:
    def dump (self, *a, **k):
        pass


def letters (ctx, layout):
    """ distribution of letters """
    import unicodedata
    import lulua.plot as plot
    name = layout
    layout = load (name)
    s, w = empty (layout)
    kb = layout.keyboard
    count = {}
    # letters on several keys, below several modifiers, other texts
    i = 0
    for k in ('Dl1', 'Dl2', 'Dr4', 'Cr1', 'Bl1', 'Fl_space'):
        for m in ((), ('El_shift', ), ('Er_shift', )):
            c = press (kb, k, m)
            t = layout.getText (c) if any (set (x) == set (c.modifier) and kb[k] in l.layout for l in layout.layers for x in l.modifier) else None
            if t is not None:
                v = ctx.int (f'n{i}', 1, 10**9)
                i += 1
                s['simple'].combinations[c] = v
                if unicodedata.category (t[0]) == 'Lo':
                    count[t] = count.get (t, 0)+v
    total = sum (count.values ())
    want = permutation (ctx, list (count.items ()), lambda x: x[1])
    mods = bokeh ()
    with Modules (mods), patched (plot, json=Json ()):
        run (ctx, 'plot', 'letterfreq', s, layout=name)
    ctx.check (len (Source.sources) == 1 and len (Figure.figures) == 1, 'one plot')
    d = Source.sources[0].data
    n = len (want)
    ctx.check (all (len (v) == n for v in d.values ()), 'all letters')
    ctx.check (list (d['letters']) == [t for t, v in reversed (want)], 'letters, in order')
    ctx.check (list (Figure.figures[0].args['x_range']) == list (d['letters']), 'axis')
    for i, (t, v) in enumerate (reversed (want)):
        ctx.check (d['abs'][i] == v, 'number of letters')
        ctx.close (d['rel'][i]*total, v, 'share of letters')
        c = sum (x[1] for x in want[:n-i])
        ctx.check (d['cum'][i] == c, 'cumulative number')
        ctx.close (d['cumRel'][i]*total, c, 'cumulative share')
    ctx.observe (total)


def curves (ctx):
    """ one curve per layout """
    import lulua.plot as plot
    import lulua.stats as stats
    names = ['ar-lulua', 'ar-asmo663', 'ar-linux']
    data = []
    for i, n in enumerate (names):
        data.append ({'x': [ctx.real (f'x{i}{j}', 0, 1) for j in range (2)], 'y': [ctx.real (f'y{i}{j}', 0, 1) for j in range (2)], 'layout': load (n)})
    import sys
    stdin = Namespace ()
    stdin.buffer = ctx.picklefile (data)
    old = sys.stdin
    sys.stdin = stdin
    try:
        with Modules (bokeh ()), patched (plot, json=Json ()):
            plot.triadEffortPlot (Namespace ())
    finally:
        sys.stdin = old
    ctx.check (len (Figure.figures) == 1, 'one plot')
    lines = Figure.figures[0].lines
    ctx.check (len (lines) == len (names), 'one curve for every layout')
    ctx.check (len (set (k['color'] for a, k in lines)) == len (names), 'colors')
    for n, d, (a, k) in zip (names, data, lines):
        ctx.check (k['legend_label'] == n and k['name'] == n, 'legend')
        ctx.check (list (a[0]) == d['x'] and list (a[1]) == d['y'], 'points of curves')
    ctx.observe (len (lines))


def pretty (ctx, what):
    from lulua.carpalx import models
    from lulua.util import displayText
    layout = load ('ar-lulua')
    s, w = empty (layout)
    kb = layout.keyboard
    num = lambda part, n: [ctx.int (f'{part}{i}', 1, 10**6) if part in what else i+1 for i in range (n)]
    b = dict (zip (['Dl1', 'Er5', 'Fl_space'], num ('buttons', 3)))
    for k, v in b.items ():
        s['simple'].buttons[kb[k]] = v
    c = dict (zip ([('Dl1', ()), ('Dr6', ('El_shift', )), ('Fl_space', ())], num ('combinations', 3)))
    for (k, m), v in c.items ():
        s['simple'].combinations[press (kb, k, m)] = v
    u = dict (zip (['\n', 'x', '\xe4'], num ('unknown', 3)))
    for k, v in u.items ():
        s['simple'].unknown[k] = v
    from lulua.layout import LEFT, RIGHT
    l, r = num ('left', 2), num ('right', 2)
    s['runlen'].perHandRunlenDist[LEFT].update ({3: l[0], 1: l[1]})
    s['runlen'].perHandRunlenDist[RIGHT].update ({2: r[0], 1: r[1]})
    t = num ('triads', 2)
    E = W = 0
    for x, v in zip (TRIADS, t):
        combs = [press (kb, k, m) for k, m in x]
        s['triads'].triads[tuple (combs)] = v
        E = E+v*spec_carpalx.effort ([[kb[k] for k in m]+[kb[y]] for y, m in x], w.getHandFinger, kb.getRow, models['mod01'])
        W = W+v
    words = dict (zip (['\u0628', '\u0628\u0627', 'x'], num ('words', 3)))
    s['words'].words.update (words)
    lines, f, y = run (ctx, 'stats', 'pretty', s, layout='ar-lulua')
    text = ''
    for x in lines:
        text = text+x
    got = [x.split ('%')[0].split () for x in text.split ('\n')]
    got = [x for x in got if len (x)]

    def find (title):
        for i, x in enumerate (got):
            if len (x) >= len (title) and all (type (a) is str and a == t for a, t in zip (x, title)):
                return i
        ctx.check (False, f'section {" ".join (title)}')

    def total (title, v):
        i = find (title)
        ctx.check (len (got[i]) == len (title)+1, 'total')
        ctx.close (float (got[i][-1]), v, 'total')
        return i+1

    def section (i, items, label, ordered=True, n=None):
        """ label, count, share (in percent) """
        sec = got[i:i+len (items)]
        ctx.check (len (sec) == len (items), 'lines')
        sm = sum (items.values ())
        seen = set ()
        last = 0
        for x in sec:
            for k, v in items.items ():
                p = label (k).split ()
                x2 = x[1:] if n else x
                if k not in seen and [a for a in x2[:len (p)] if type (a) is str] == p:
                    seen.add (k)
                    break
            else:
                ctx.check (False, 'label')
            count, share = (float (a) for a in (x2[len (p):] if len (x2) == len (p)+2 else x2[len (p):]+['0']))
            if label is WORD:
                count, share = share, count
            ctx.close (count, v, 'count')
            if len (x2) == len (p)+2:
                # rounded
                d = share*sm-100*v
                ctx.check (-0.06*sm <= d and d <= 0.06*sm, 'share')
            if ordered == 'label':
                ctx.check (last <= k, 'order')
                last = k
            elif ordered:
                ctx.check (last <= count, 'order')
                last = count
            if n:
                ctx.check (float (x[0].rstrip ('.')) == n, 'rank')
                n -= 1
        return i+len (items)

    WORD = lambda k: k
    i = section (total (['button', 'presses'], sum (b.values ())), b, lambda k: f'{kb[k]}')
    section (total (['combinations'], sum (c.values ())), c, lambda k: f'{displayText (layout.getText (press (kb, *k)))} {press (kb, *k)}', n=3)
    section (find (['unknown'])+1, u, lambda k: repr (k))
    section (find (str (LEFT).split ())+1, {3: l[0], 1: l[1]}, str, ordered='label')
    section (find (str (RIGHT).split ())+1, {2: r[0], 1: r[1]}, str, ordered='label')
    section (find (['combined'])+1, {3: l[0], 1: l[1]+r[1], 2: r[0]}, str, ordered=False)
    section (find (['triads'])+1, {tuple (press (kb, k, m) for k, m in x): v for x, v in zip (TRIADS, t)}, str)
    section (total (['words'], sum (words.values ())), words, WORD)
    i = find (['total', 'effort', '(carpalx)'])
    ctx.close (float (got[i][-1]), E/W, 'effort')
    ctx.observe (W)


def latinime (ctx, n):
    import math
    layout = load ('ar-lulua')
    s, w = empty (layout)
    words = [('\u0628', ctx.int ('n0', 1, 10**9)), ('\u0628\u0627', ctx.int ('n1', 1, 10**9)), ('\u0627\u0628', ctx.int ('n2', 1, 10**9))][:n]
    for t, v in words:
        s['words'].words[t] = v
    total = sum (v for t, v in words)
    # evaluated before the code is run: the logarithm is opaque
    want = permutation (ctx, [(t, v, 255+int (round (math.log (v/total, 1.15)))) for t, v in words], lambda x: x[1])
    lines, f, y = run (ctx, 'stats', 'latinImeDict', s)
    text = ''
    for x in lines:
        text = text+x
    head = [x for x in text.split ('\n') if not x.startswith ('#')][0]
    ctx.check (head.startswith ('dictionary=main:ar,locale=ar,'), 'header')
    got = [x for x in text.split ('\n') if x.startswith (' word=')]
    ctx.check (len (got) == n, 'one line for every word')
    for l, (t, v, p) in zip (got, want):
        a, b = l.split (',')
        ctx.check (a == ' word='+t and b.startswith ('f='), 'words, most frequent first')
        ctx.check (int (b.split ('=')[1]) == p, 'logarithmic frequency')
    ctx.observe (total)


def cases (tier):
    q = tier == 'quick'
    o = {'lazyformat': True}
    r = []
    layouts = ['ar-lulua', 'ar-asmo663'] if q else ['ar-lulua', 'ar-asmo663', 'ar-linux', 'ar-osx', 'ar-malas']
    r.append (('corpus', corpus, {}, o))
    r.append (('curves', curves, {}, o))
    for n in (1, 2, 3):
        r.append ((f'latinime{n}', latinime, dict (n=n), o))
    for x in ['buttons', 'combinations', 'unknown', 'left', 'triads', 'words'] if q else ['buttons combinations', 'unknown words', 'left right triads']:
        r.append ((f'pretty-{x}', pretty, dict (what=x.split ()), o))
    for i, l in enumerate (layouts):
        r.append ((f'letters-{l}', letters, dict (layout=l), o))
        r.append ((f'hands-{l}', hands, dict (layout=l, keys=KEYS), o))
        r.append ((f'onehand-{l}', hands, dict (layout=l, keys=KEYS[:2]), o))
        r.append ((f'hamza-{l}', hamza, dict (layout=l), o))
        r.append ((f'heatmap-{l}', heatmap, dict (layout=l), o))
        for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
            if n != 3 or not q:
                r.append ((f'effort-{l}{n}', effort, dict (layout=l, n=n), o))
            if i == 0 or not q:
                for s in ('weight', 'effort', 'combined'):
                    if n < 5 and not (s == 'combined' and n > 3):
                        r.append ((f'freq-{l}{n}{s}', freq, dict (layout=l, n=n, sort=s), o))
    return r
