""" Effort of a single triad """
from .common import load, press
from .spec_carpalx import effort, strokepath, fingerpos

PRELOAD = ['lulua.carpalx', 'lulua.writer', 'lulua.layout', 'lulua.keyboard', 'harness.spec_carpalx']
FUNCTIONS = ['lulua.carpalx.Carpalx.addTriad', 'lulua.carpalx.Carpalx.effort', 'lulua.carpalx.Carpalx._triadEffort', 'lulua.carpalx.Carpalx._baseEffort', 'lulua.carpalx.Carpalx._penalty',
    'lulua.carpalx.Carpalx._strokePath', 'lulua.carpalx.Carpalx._strokePathHand', 'lulua.carpalx.Carpalx._strokePathRow', 'lulua.carpalx.Carpalx._strokePathFinger', 'lulua.carpalx.madd',
    'lulua.writer.Writer.getHandFinger', 'lulua.keyboard.PhysicalKeyboard.getRow']
BOUNDS = {
    'quick': 'stroke path of all triads of single keys (every key with a base effort); both shipped models with their published parameters, with one position being any key and triads of 6 combinations of 1-3 keys per position; two triads of 5 combinations one after the other; base efforts, penalties and weights as symbolic reals for 4 triads of 1-3 keys',
    'thorough': 'same with 10 combinations per position, 8 triads with symbolic model'}
OUTSIDE = 'models with other rows/fingers than the keyboard has, rounding of floating point numbers'

COMBS = [('Dl1', ()), ('Dr6', ()), ('Cl3', ('El_shift', )), ('Er2', ('El_shift', )), ('Bl1', ('Fr_altgr', )), ('Dl4', ('Er_shift', 'Fr_altgr')),
    ('Dl1', ('Er_shift', )), ('El5', ()), ('Cr7', ('Dl_caps', )), ('Dr3', ())]

# same buttons, different modifiers
PAIRS = [('Dl1', ()), ('Dl1', ('El_shift', )), ('Er_shift', ('El_shift', )), ('El_shift', ()), ('Dl1', ('Er_shift', ))]


def setup ():
    from lulua.writer import Writer
    layout = load ('ar-lulua')
    w = Writer (layout)
    return layout.keyboard, w


def measure (model, w, triad, n=1):
    from lulua.carpalx import Carpalx
    c = Carpalx (model, w)
    c.addTriad (tuple (triad), n)
    return c.effort


def path (ctx):
    """ all triads of single keys: only the stroke path counts """
    from lulua.carpalx import models
    kb, w = setup ()
    model = models['mod01']._replace (kBPS=(0, 0, 1), fHRF=(100, 10, 1))
    keys = [kb[x] for x in model.baselineEffort]
    from lulua.layout import ButtonCombination
    combs = [ButtonCombination (frozenset (), frozenset ([k])) for k in keys]
    t = [ctx.pick (f'k{i}', combs) for i in range (3)]
    ks = []
    for c in t:
        for b in c.buttons:
            ks.append (b)
    got = measure (model, w, t)
    want = strokepath (ks, w.getHandFinger, kb.getRow, model.fHRF)
    ctx.check (got == want, 'hand, row and finger path')
    ctx.observe (got)


def full (ctx, model, n):
    from lulua.carpalx import models
    kb, w = setup ()
    m = models[model]
    combs = [press (kb, k, mo) for k, mo in COMBS[:n]]
    t = [ctx.fork (f'c{i}', combs) for i in range (3)]
    got = measure (m, w, t)
    ctx.close (got, effort ([list (c) for c in t], w.getHandFinger, kb.getRow, m), 'effort by definition')
    ctx.observe (got)


def pairs (ctx, first):
    """ effort of a triad does not depend on triads seen before """
    from lulua.carpalx import Carpalx, models
    kb, w = setup ()
    m = models['mod01']
    combs = [press (kb, *x) for x in PAIRS]
    t1 = [combs[i] for i in first]
    t2 = [ctx.fork (f'c{i}', combs) for i in range (3)]
    c = Carpalx (m, w)
    c.addTriad (tuple (t1), 1)
    ctx.close (c.effort, effort ([list (x) for x in t1], w.getHandFinger, kb.getRow, m), 'effort of the first triad')
    c.reset ()
    c.addTriad (tuple (t2), 1)
    got = c.effort
    ctx.close (got, effort ([list (x) for x in t2], w.getHandFinger, kb.getRow, m), 'effort of the second triad')
    ctx.observe (got)


# http://mkweb.bcgsc.ca/carpalx/?model_parameters, extended by keys without letters
ROWS = [('Bl1 Bl2 Bl3 Bl4 Bl5 Bl6 Bl7 Br6 Br5 Br4 Br3 Br2 Br1', (5, 5, 4, 4, 4, 3.5, 4.5, 4, 4, 4, 4, 4, 4.5)),
    ('Cl1 Cl2 Cl3 Cl4 Cl5 Cr7 Cr6 Cr5 Cr4 Cr3 Cr2 Cr1', (2, 2, 2, 2, 2.5, 3, 2, 2, 2, 2.5, 4, 6)),
    ('Dl1 Dl2 Dl3 Dl4 Dl5 Dr7 Dr6 Dr5 Dr4 Dr3 Dr2', (0, 0, 0, 0, 2, 2, 0, 0, 0, 0, 2)),
    ('El2 El3 El4 El5 El6 Er5 Er4 Er3 Er2 Er1', (2, 2, 2, 2, 3.5, 2, 2, 2, 2, 2))]
EXTRA = {'Dl_caps': 2, 'Dr1': 4, 'El_shift': 4, 'El1': 4, 'Er_shift': 4, 'Fr_altgr': 4}
# differences of the other model
SALVO = {'Cl5': 2.3, 'Cr6': 1.9, 'Cr3': 2.2, 'Dl5': 1.8, 'Dr7': 1.8}
FINGERS = {'mod01': dict (LEFT=dict (INDEX=0, MIDDLE=0, RING=.5, LITTLE=1), RIGHT=dict (INDEX=0, MIDDLE=0, RING=.5, LITTLE=1)),
    'salvo': dict (LEFT=dict (INDEX=6.09, MIDDLE=5.65, RING=4.54, LITTLE=3.77), RIGHT=dict (INDEX=6.57, MIDDLE=6.37, RING=5.08, LITTLE=4.27))}


def published (ctx, model, pos, fixed):
    """ one symbolic key, all parameters as published """
    from lulua.carpalx import models, ModelParams
    from lulua.layout import LEFT, RIGHT, FingerType, ButtonCombination
    kb, w = setup ()
    base = {k: float (v) for r, x in ROWS for k, v in zip (r.split (), x)}
    base.update (EXTRA)
    if model == 'salvo':
        base.update (SALVO)
    f = FINGERS[model]
    m = ModelParams (kBPS=(0.3555, 0.6423, 0.4268), k123S=(1, 0.367, 0.235, 1), w0HRF=(0, 1, 1.3088, 2.5948), pHand={LEFT: 0, RIGHT: 0}, pRow=(1.5, .5, 0, 1, 1.5), fHRF=(1, .3, .3),
        pFinger={h: {x: 0 if x.name == 'THUMB' else f[h.name][x.name] if model == 'mod01' else 1-f[h.name][x.name]/6.57 for x in FingerType} for h in (LEFT, RIGHT)}, baselineEffort=base)
    t = [press (kb, *x) for x in fixed]
    k = ctx.pick ('key', [kb[x] for x in base])
    t[pos] = ButtonCombination (frozenset (), frozenset ([k])) if pos < 3 else t[pos]
    got = measure (models[model], w, t)
    ctx.close (got, effort ([list (c) for c in t], w.getHandFinger, kb.getRow, m), 'effort with published parameters')
    ctx.observe (got)


def symbolic (ctx, combs, parts):
    """ symbolic model parameters """
    from lulua.carpalx import models
    from lulua.layout import LEFT, RIGHT, FingerType
    kb, w = setup ()
    t = [press (kb, *COMBS[i]) for i in combs]
    names = sorted (set (b.name for c in t for b in c))
    m = models['mod01']
    kBPS = tuple (ctx.real (f'kbps{i}', 0, 4) if parts[i] else 0 for i in range (3))
    m = m._replace (kBPS=kBPS, k123S=(1.5, 0.25, 0.75, ctx.real ('ks', 0, 4)), fHRF=tuple (ctx.real (f'f{i}', 0, 4) for i in range (3)))
    if parts[0]:
        m = m._replace (baselineEffort={k: ctx.real ('base'+k, 0, 9) for k in names})
    if parts[1]:
        m = m._replace (pHand={LEFT: ctx.real ('pl', 0, 4), RIGHT: ctx.real ('pr', 0, 4)}, pRow=tuple (ctx.real (f'prow{i}', 0, 4) for i in range (5)), w0HRF=tuple (ctx.real (f'w{i}', 0, 4) for i in range (4)),
            pFinger={h: {f: ctx.real (f'pf{h.name}{f.name}', 0, 4) for f in FingerType} for h in (LEFT, RIGHT)})
    got = measure (m, w, t)
    ctx.close (got, effort ([list (c) for c in t], w.getHandFinger, kb.getRow, m), 'effort by definition')
    ctx.observe (got)


def fingers (ctx):
    """ the finger assigned to every key is plausible: left to right within every row """
    kb, w = setup ()
    rows = []
    for i, (l, r) in enumerate (kb):
        rows.append ((l, r))
        for b in l:
            ctx.check (w.getHandFinger (b)[0].name == 'LEFT', 'left half, left hand')
        for b in r:
            ctx.check (w.getHandFinger (b)[0].name == 'RIGHT', 'right half, right hand')
        if i < 4:
            pos = [fingerpos (*w.getHandFinger (b)) for b in list (l)+list (r)]
            ctx.check (all (a <= b for a, b in zip (pos, pos[1:])), 'fingers are ordered left to right')
            ctx.check (4 not in pos and 5 not in pos, 'thumbs are not used for letters')


def cases (tier):
    quick = tier == 'quick'
    n = 6 if quick else 10
    r = [('path', path, {}), ('mod01', full, dict (model='mod01', n=n)), ('salvo', full, dict (model='salvo', n=n)), ('fingers', fingers, {})]
    for m in ('mod01', 'salvo'):
        for p in range (3):
            r.append ((f'published-{m}{p}', published, dict (model=m, pos=p, fixed=[('Cr7', ()), ('El6', ('Er_shift', )), ('Bl3', ())])))
    for t in [(0, 1, 2), (3, 0, 4), (4, 2, 0), (2, 1, 3)]:
        r.append ((f'pairs{"".join (map (str, t))}', pairs, dict (first=t)))
    tr = [(0, 1, 2), (2, 5, 1), (4, 4, 0), (3, 2, 5)]
    if not quick:
        tr += [(7, 8, 9), (6, 6, 6), (5, 2, 4), (9, 5, 5)]
    for t in tr:
        for parts in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
            r.append ((f'sym{"".join (map (str, t))}-{"".join (map (str, parts))}', symbolic, dict (combs=t, parts=parts)))
    return r
