""" Command line optimizer: result is a rearranged layout with the reported energy """
import sys
from io import StringIO
from .common import small, press, keyboard, patched, Bar, Quiet
from .c14 import Random, Giveup, MODS

PRELOAD = ['lulua.optimize', 'lulua.stats', 'lulua.carpalx', 'lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.optimize.optimize', 'lulua.optimize.parsePin', 'lulua.optimize.parseMutation', 'lulua.optimize.LayoutOptimizer.__init__', 'lulua.optimize.LayoutOptimizer.mutate',
    'lulua.optimize.LayoutOptimizer._acceptMutation', 'lulua.optimize.LayoutOptimizer._resetEnergy', 'lulua.optimize.Annealer.run', 'lulua.layout.GenericLayout.serialize', 'lulua.layout.KeyboardLayout.getText']
BOUNDS = {
    'quick': 'layouts of 2 layers and 7 texts, two of them 1-2 symbolic characters, on the shipped keyboard, 5 triads, 0-2 steps with any choice of 4 positions (letters, an unused key), with and without pins, initial exchanges, limit of triads, both models; pin and exchange arguments of 1-2 items with symbolic layer (0-99) and key patterns of 1-3 symbolic characters',
    'thorough': 'same with up to 3 steps and 5 positions'}
OUTSIDE = 'YAML emission (replaced by recording what is emitted), more steps, rounding of floating point numbers'
ASSUMPTIONS = ['the random number generator is replaced by one which returns any value', 'tqdm is replaced by a stub']

LAYOUT = [(0, 'Dl1'), (0, 'Dr6'), (1, 'Dl1'), (1, 'Cl3'), (0, 'Fl_space'), (0, 'CD_ret'), (1, 'Er2')]
TRIADS = [([0, 1, 2], 4000), ([3, 2, 1], 3000), ([1, 1, 0], 2000), ([2, 0, 3], 1000), ([6, 6, 0], 1)]
FREE = [(0, 'Dl1'), (0, 'Dr6'), (1, 'Cl3'), (1, 'El5'), (0, 'Bl1')]


class Out:
    def __init__ (self):
        self.docs = []

    def dump (self, data, fd=None, **k):
        self.docs.append (data)

    def safe_dump (self, data, fd=None, **k):
        self.docs.append (data)

    def __getattr__ (self, k):
        import yaml
        return getattr (yaml, k)


def call (ctx, args, steps, free, sym=False, tail=False):
    import lulua.optimize as o
    from lulua.layout import GenericLayout
    from lulua.stats import TriadStats
    from lulua.writer import Writer
    texts = ['\u0627', ctx.str ('texta', 2) if sym else 'bd', 'b', ctx.str ('textb', 1) if sym else 'd', ' ', '\n', 'c']
    if sym:
        ctx.assume (texts[3] not in '\u0627b \nc')
    layers = [{}, {}]
    for (l, k), t in zip (LAYOUT, texts):
        layers[l][k] = t
    data = {'name': 'tiny', 'layout': [{'modifier': [list (x) for x in MODS[i]], 'layer': layers[i]} for i in range (2)]}
    generic = GenericLayout.deserialize (data)
    layout = generic.specialize (keyboard ())
    kb = layout.keyboard
    s = TriadStats (Writer (layout))
    for t, n in TRIADS:
        s.triads[tuple (press (kb, LAYOUT[x][1], MODS[LAYOUT[x][0]][-1]) for x in t)] = n
    fd = ctx.picklefile ([{'triads': s}])

    class Stdin:
        buffer = fd

    out = Out ()
    stdout, stderr = StringIO (), StringIO ()
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    free = set (FREE[:free] if isinstance (free, int) else free)
    rnd = Random (ctx, 2 if tail else 2*steps, lambda x: (x[0], x[1].name) in free)
    rnd._next = forking (ctx, rnd, tail)
    try:
        sys.argv = ['lulua-optimize', '-l', 'tiny', '-n', str (steps)]+args
        sys.stdin, sys.stdout, sys.stderr = Stdin (), stdout, stderr
        with patched (o, random=rnd, tqdm=Bar (), yaml=out, logging=Quiet (), defaultLayouts={'tiny': generic}):
            ret = o.optimize ()
    except Giveup:
        ret = None
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
    if ret is None:
        ctx.assume (False)
    return ret, out.docs, stdout.getvalue (), texts, layout


def forking (ctx, r, tail):
    def f (l):
        r.n += 1
        if r.n > r.limit and tail:
            return l[(r.n*7+r.n//5) % len (l)]
        if r.n > r.limit:
            raise Giveup ()
        return ctx.fork (f'random{r.n}', l)
    return f


def judge (ctx, ret, docs, text, texts, layout, model='mod01', limit=None, pins=(), exact=None, start=LAYOUT):
    from lulua.carpalx import Carpalx, models
    from lulua.writer import Writer
    kb = layout.keyboard
    ctx.check (ret == 0 and len (docs) == 1, 'one layout is written')
    new = docs[0]['layout']
    ctx.check (len (new) == 2, 'same number of layers')
    for i in range (2):
        ctx.check ([set (m) for m in new[i]['modifier']] == [set (m) for m in MODS[i]], 'same modifiers')
    places = {}
    n = 0
    for i, l in enumerate (new):
        for k, t in l['layer'].items ():
            n += 1
            for j, x in enumerate (texts):
                if t == x:
                    ctx.check (j not in places, 'no text is duplicated')
                    places[j] = (i, k)
    ctx.check (n == len (texts) and len (places) == n, 'no text is lost or invented')
    ctx.check (places[4] == LAYOUT[4] and places[5] == LAYOUT[5], 'space and return stay')
    for l, k in pins:
        for j, p in places.items ():
            if k is None and LAYOUT[j][0] == l:
                ctx.check (p[0] == l, 'pinned layer')
            elif LAYOUT[j] == (l, k):
                ctx.check (p == (l, k), 'pinned key')
    if exact is not None:
        ctx.check (all (places[j] == exact[j] for j in (0, 1, 2, 3, 6)), 'requested exchange')

    def effort (where):
        c = Carpalx (models[model], Writer (layout))
        for t, v in TRIADS[:limit]:
            c.addTriad (tuple (press (kb, where[x][1], MODS[where[x][0]][0]) for x in t), v)
        return c.effort
    lines = text.split ('\n')
    e = [float (x[len ('# energy: '):]) for x in lines if x.startswith ('# energy: ')]
    ctx.check (len (e) == 1, 'energy is reported')
    got = effort (places)
    ctx.close (e[0], got, 'reported energy is that of the layout')
    if exact is None and start is not None:
        ctx.check (got <= effort (start)+1e-9, 'not worse than before')
    ctx.observe (places)


def run (ctx, steps, npos, args, sym=False, tail=False, **kw):
    judge (ctx, *call (ctx, args, steps, npos, sym, tail), **kw)



def pinarg (ctx, n, star):
    from lulua.optimize import parsePin
    want = []
    s = ''
    for i in range (n):
        layer = ctx.str (f'layer{i}', ctx.fork (f'digits{i}', [1, 2]), '0123456789')
        k = ctx.fork (f'kind{i}', [0, 1, 2, 3])
        name = ctx.str (f'name{i}', k, 'BlDr_1*') if k else None
        s = s+(';' if i else '')+layer+(','+name if k else '')
        want.append ((int (layer), name))
    got = list (parsePin (s))
    for w in want:
        ctx.check (any (g[0] == w[0] and g[1] == w[1] for g in got), 'every pin is used')
    for g in got:
        ctx.check (any (g[0] == w[0] and g[1] == w[1] for w in want), 'no other pin')
    ctx.observe (len (got))


def mutarg (ctx):
    from lulua.optimize import parseMutation
    a, b = ctx.str ('a', 1, '0123456789'), ctx.str ('b', 2, '0123456789')
    ka, kb = ctx.str ('ka', 3, 'BlDr_1'), ctx.str ('kb', ctx.fork ('n', [1, 2]), 'BlDr_1')
    got = parseMutation (a+','+ka+':'+b+','+kb)
    ctx.check (len (got) == 2 and got[0] == (int (a), ka) and got[1] == (int (b), kb), 'both positions')
    ctx.observe (got)


def cases (tier):
    q = tier == 'quick'
    r = [('keep', run, dict (steps=0, npos=4, args=[], exact=LAYOUT, sym=True)),
        ('exchange', run, dict (steps=0, npos=4, args=['-s', '0,Dl1:1,Cl3'], sym=True, exact=[(1, 'Cl3'), (0, 'Dr6'), (1, 'Dl1'), (0, 'Dl1'), None, None, (1, 'Er2')])),
        ('exchange2', run, dict (steps=0, npos=4, args=['-s', '0,Dl1:1,Cl3', '--mutate', '0,Dl1:0,Bl1'], sym=True, exact=[(0, 'Bl1'), (0, 'Dr6'), (1, 'Dl1'), (0, 'Dl1'), None, None, (1, 'Er2')])),
        ('step1', run, dict (steps=1, npos=5, args=[], sym=True)),
        ('step1-salvo', run, dict (steps=1, npos=4, args=['-m', 'salvo'], model='salvo')),
        ('step1-one', run, dict (steps=1, npos=3, args=['--triad-limit', '1'], limit=1)),
        ('step1-limit', run, dict (steps=1, npos=3, args=['--triad-limit', '2'], limit=2)),
        ('step1-pinkey', run, dict (steps=1, npos=5, args=['-p', '0,D*'], pins=[(0, 'Dl1'), (0, 'Dr6')])),
        ('step1-pinlayer', run, dict (steps=1, npos=5, args=['-p', '0;1,Cl3'], pins=[(0, None), (1, 'Cl3')])),
        ('step2', run, dict (steps=2, npos=3 if q else 4, args=[])),
        ('step2-degrade', run, dict (steps=2, npos=[(0, 'Dl1'), (0, 'Bl1'), (1, 'Er2'), (1, 'Br1')], args=['-s', '0,Dl1:0,Bl1'], start=[(0, 'Bl1')]+LAYOUT[1:])),
        ('random', run, dict (steps=0, npos=FREE+[(1, 'Dl1'), (1, 'Er2')], args=['-r', '-p', '0;1,Cl3'], pins=[(0, None), (1, 'Cl3')], tail=True, start=None)),
        ('random1', run, dict (steps=1, npos=3, args=['-r'], tail=True, start=None)),
        ('pin1', pinarg, dict (n=1, star=False)), ('pin2', pinarg, dict (n=2, star=False)), ('mutation', mutarg, {})]
    if not q:
        r += [('step2-pinlayer', run, dict (steps=2, npos=5, args=['-p', '0'], pins=[(0, None)])),
            ('step3', run, dict (steps=3, npos=3, args=[])), ('pin3', pinarg, dict (n=3, star=False))]
    return r
