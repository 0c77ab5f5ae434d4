""" Optimizer: mutations of a layout and their incrementally tracked energy """
from .common import small, press, keyboard
from .common import Bar, patched

PRELOAD = ['lulua.optimize', 'lulua.carpalx', 'lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.optimize.LayoutOptimizer.__init__', 'lulua.optimize.LayoutOptimizer.mutate', 'lulua.optimize.LayoutOptimizer._acceptMutation', 'lulua.optimize.LayoutOptimizer._resetEnergy',
    'lulua.optimize.LayoutOptimizer.run', 'lulua.optimize.LayoutOptimizer.energy', 'lulua.optimize.LayoutOptimizerState.copy', 'lulua.optimize.mapButton', 'lulua.optimize.Annealer.run',
    'lulua.carpalx.Carpalx.addTriad', 'lulua.carpalx.Carpalx.removeTriad', 'lulua.carpalx.Carpalx.copy', 'lulua.layout.KeyboardLayout.modifierToLayer']
BOUNDS = {
    'quick': '4 exchangeable positions on two layers, 3 triads, up to 2 mutations with any choice of positions and up to 1 rejected choice, 6 sets of pins, starting with the original or a modified layout, 1-2 optimisation steps; base effort of keys symbolic reals',
    'thorough': '6 exchangeable positions on three layers, up to 3 mutations'}
OUTSIDE = 'larger layouts and more triads, more mutations, rounding of floating point numbers'
ASSUMPTIONS = ['the random number generator is replaced by one which returns any value']

POS = [(0, 'Dl1'), (0, 'Dr6'), (1, 'Dl1'), (1, 'Cl3'), (0, 'Er2'), (2, 'Dr6')]
MODS = [[()], [('El_shift', ), ('Er_shift', )], [('Fr_altgr', )]]
TRIADS = [([(0, 'Dl1'), (0, 'Dr6'), (0, 'Dl1')], 5), ([(1, 'Cl3'), (0, 'Dr6'), (1, 'Dl1')], 3), ([(1, 'Dl1'), (1, 'Dl1'), (0, 'Dl1')], 2), ([(0, 'Er2'), (0, 'Er2'), (1, 'Cl3')], 1), ([(2, 'Dr6'), (0, 'Dl1'), (0, 'Dr6')], 4)]


class Giveup (Exception):
    pass


class Random:
    """ returns anything """
    def __init__ (self, ctx, limit, allowed=None):
        self.ctx, self.limit, self.n, self.allowed = ctx, limit, 0, allowed

    def _next (self, l):
        self.n += 1
        if self.n > self.limit:
            raise Giveup ()
        return self.ctx.pick (f"random{self.n}", l)

    def choice (self, l):
        l = list (l)
        if self.allowed is not None:
            l = [x for x in l if self.allowed (x)]
        return self._next (l)

    def sample (self, l, k):
        l = list (l)
        r = []
        for i in range (k):
            x = self.choice (l)
            l.remove (x)
            r.append (x)
        return r

    def choices (self, l, k=1, **kw):
        return [self.choice (l) for i in range (k)]

    def randrange (self, a, b=None):
        return self._next (list (range (a) if b is None else range (a, b)))

    def randint (self, a, b):
        return self.randrange (a, b+1)


def build (ctx, npos, ntri, pins, model=None, start=()):
    import lulua.optimize as o
    from lulua.carpalx import models
    from lulua.writer import Writer
    pos = POS[:npos]
    nl = max (l for l, _ in pos)+1
    layout = small ([(MODS[i], {k: chr (0x627+i*7+j) for j, (l, k) in enumerate (pos) if l == i}) for i in range (nl)])
    kb = layout.keyboard
    tr = []
    for t, v in TRIADS:
        if all (x in pos for x in t) and len (tr) < ntri:
            tr.append ((tuple (press (kb, k, MODS[l][-1]) for l, k in t), v))
    m = models['mod01']
    if model is not None:
        m = model (m)
    bmap = {(l, kb[k]): (l, kb[k]) for l, k in pos}
    for a, b in start:
        a, b = (a[0], kb[a[1]]), (b[0], kb[b[1]])
        bmap[a], bmap[b] = bmap[b], bmap[a]
    ps = frozenset ((l, kb[k] if k is not None else None) for l, k in pins)
    opt = o.LayoutOptimizer (bmap, tr, layout, ps, Writer (layout), m)
    return o, opt, layout, tr, m, pos


def symmodel (ctx):
    def f (m):
        e = dict (m.baselineEffort)
        e['Dl1'] = ctx.real ('baseDl1', 0, 9)
        e['Cl3'] = ctx.real ('baseCl3', 0, 9)
        return m._replace (baselineEffort=e, k123S=(1, 0.5, 0, 0.25))
    return f


def expected (layout, tr, m, bmap):
    """ effort of all triads, typed with the exchanged layout """
    from lulua.carpalx import Carpalx
    from lulua.writer import Writer
    c = Carpalx (m, Writer (layout))
    for t, v in tr:
        new = []
        for comb in t:
            layer = [i for i, l in enumerate (layout.layers) if comb.modifier in l.modifier][0]
            for b in comb.buttons:
                nl, nb = bmap[(layer, b)]
            new.append (type (comb) (layout.layers[nl].modifier[0], frozenset ([nb])))
        c.addTriad (tuple (new), v)
    return c.effort


def view (bmap):
    return {(l, b.name): (l2, b2.name) for (l, b), (l2, b2) in bmap.items ()}


def isperm (ctx, v, pos):
    ctx.check (sorted (v) == sorted (pos) and sorted (v.values ()) == sorted (pos), 'one to one')


def pinned (ctx, v, pins, before):
    for l, k in pins:
        for a, b in v.items ():
            if before[a] == b:
                continue
            if k is None and a[0] == l:
                ctx.check (b[0] == l, 'pinned layer')
            elif a == (l, k):
                ctx.check (b == a, 'pinned key')


def mutate (ctx, npos, ntri, pins, n, limit, withEnergy=True, start=()):
    o, opt, layout, tr, m, pos = build (ctx, npos, ntri, pins, symmodel (ctx) if withEnergy else None, start)
    with patched (o, random=Random (ctx, limit), tqdm=Bar ()):
        try:
            opt.run (steps=0)
            e0 = expected (layout, tr, m, opt.state.buttonMap)
            ctx.close (opt.energy (), e0, 'initial energy')
            for i in range (n):
                before = view (opt.state.buttonMap)
                d = opt.mutate () if withEnergy else opt.mutate (withEnergy=False)
                after = view (opt.state.buttonMap)
                isperm (ctx, after, pos)
                pinned (ctx, after, pins, before)
                changed = [a for a in before if before[a] != after[a]]
                ctx.check (len (changed) == 2 and before[changed[0]] == after[changed[1]], 'exactly two are exchanged')
                if withEnergy:
                    e1 = expected (layout, tr, m, opt.state.buttonMap)
                    ctx.close (opt.energy (), e1, 'energy is that of the exchanged layout')
                    ctx.close (d, e1-e0, 'energy difference')
                    e0 = e1
                ctx.observe (after)
            if not withEnergy:
                opt.run (steps=0)
                ctx.close (opt.energy (), expected (layout, tr, m, opt.state.buttonMap), 'energy after reset')
        except Giveup:
            ctx.assume (False)


def run (ctx, npos, ntri, pins, steps, sym):
    """ whole optimisation """
    o, opt, layout, tr, m, pos = build (ctx, npos, ntri, pins, symmodel (ctx) if sym else None)
    with patched (o, random=Random (ctx, 2*steps), tqdm=Bar ()):
        try:
            e0 = expected (layout, tr, m, opt.state.buttonMap)
            best, rel = opt.run (steps=steps)
        except Giveup:
            ctx.assume (False)
    v = view (best.buttonMap)
    isperm (ctx, v, pos)
    pinned (ctx, v, pins, {a: a for a in v})
    isperm (ctx, view (opt.state.buttonMap), pos)
    eb = expected (layout, tr, m, best.buttonMap)
    ctx.close (e0+rel, eb, 'energy of the best layout')
    ctx.close (best.carpalx.effort, eb, 'effort of the best layout')
    ctx.close (opt.energy (), expected (layout, tr, m, opt.state.buttonMap), 'energy of the current layout')
    ctx.check (rel <= 0, 'never worse than the initial layout')
    ctx.observe (v, view (opt.state.buttonMap))


PINS = {'none': [], 'key': [(0, 'Dl1')], 'keys': [(0, 'Dr6'), (1, 'Cl3')], 'layer': [(0, None)], 'both': [(1, None), (0, 'Dl1')], 'layers': [(0, None), (1, None)]}

STARTS = [[((0, 'Dl1'), (1, 'Cl3'))], [((0, 'Dr6'), (1, 'Dl1')), ((0, 'Dl1'), (1, 'Cl3'))]]


def cases (tier):
    r = []
    q = tier == 'quick'
    for name, pins in PINS.items ():
        r.append ((f'mutate-{name}', mutate, dict (npos=4 if q else 5, ntri=3, pins=pins, n=1, limit=4)))
        r.append ((f'fast-{name}', mutate, dict (npos=4 if q else 6, ntri=3, pins=pins, n=2, limit=4, withEnergy=False)))
    for i, start in enumerate (STARTS):
        for p in ('layer', 'layers'):
            r.append ((f'started{i}-{p}', mutate, dict (npos=4, ntri=2, pins=PINS[p], n=1, limit=4, withEnergy=not q, start=start)))
    r.append (('mutate2', mutate, dict (npos=4, ntri=2 if q else 3, pins=[], n=2, limit=4)))
    r.append (('run1', run, dict (npos=4, ntri=3, pins=[(0, None)], steps=1, sym=True)))
    r.append (('run2', run, dict (npos=4, ntri=3, pins=[], steps=2, sym=False)))
    if not q:
        r.append (('mutate2b', mutate, dict (npos=6, ntri=5, pins=[(0, 'Dr6')], n=2, limit=4)))
        r.append (('run2s', run, dict (npos=4, ntri=3, pins=[], steps=2, sym=True)))
        r.append (('run3', run, dict (npos=4, ntri=3, pins=[(0, 'Dl1')], steps=3, sym=False)))
    return [x+({'lazyformat': True}, ) for x in r]
