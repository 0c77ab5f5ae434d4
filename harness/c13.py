""" Effort of a set of triads: weighted mean, whatever happened before """
from .common import load, press

PRELOAD = ['lulua.carpalx', 'lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.carpalx.Carpalx.__init__', 'lulua.carpalx.Carpalx.addTriad', 'lulua.carpalx.Carpalx.addTriads', 'lulua.carpalx.Carpalx.removeTriad', 'lulua.carpalx.Carpalx.reset',
    'lulua.carpalx.Carpalx.copy', 'lulua.carpalx.Carpalx.effort', 'lulua.carpalx.Carpalx._triadEffort']
BOUNDS = {
    'quick': 'all histories of 3-4 operations out of add, remove, reset, copy (and go on with either the copy or the original), add several; symbolic triad (one of 4) and symbolic real weight for each',
    'thorough': 'all histories of 5 operations'}
OUTSIDE = 'longer histories, rounding of floating point numbers'

TRIADS = [(('Dl1', ()), ('Dr6', ()), ('Cl3', ('El_shift', ))), (('Dr6', ()), ('Dl1', ()), ('Cl3', ('El_shift', ))), (('Dl1', ()), ('Dl1', ()), ('Dl1', ())), (('Bl1', ()), ('Er2', ('Fr_altgr', )), ('Cr7', ()))]


def setup (model):
    from lulua.writer import Writer
    from lulua.carpalx import Carpalx, models
    layout = load ('ar-lulua')
    w = Writer (layout)
    kb = layout.keyboard
    triads = [tuple (press (kb, *x) for x in t) for t in TRIADS]
    single = []
    for t in triads:
        c = Carpalx (models[model], w)
        c.addTriad (t, 1)
        single.append (c.effort)
    return w, triads, single


def judge (ctx, c, acc, what):
    """ acc: [(weight, effort)] """
    n, s = 0, 0
    for v, e in acc:
        n = n+v
        s = s+v*e
    eff = c.effort
    if n == 0:
        ctx.check (eff == 0, what+': nothing, no effort')
    else:
        ctx.close (eff*n, s, what+': weighted mean')
    ctx.observe (eff)


def history (ctx, n, model, first):
    from lulua.carpalx import Carpalx, models
    w, triads, single = setup (model)
    c = Carpalx (models[model], w)
    acc = []
    others = []
    for i in range (n):
        op = first if i == 0 else ctx.fork (f'op{i}', ['add', 'remove', 'reset', 'copy', 'orig', 'many'])
        if op == 'add' or op == 'remove':
            t = ctx.fork (f't{i}', [0, 1, 2]) if i == n-1 else i % 4
            v = ctx.real (f'v{i}', 0.125, 1000)
            if op == 'add':
                c.addTriad (triads[t], v)
                acc = acc+[(v, single[t])]
            else:
                c.removeTriad (triads[t], v)
                acc = acc+[(-v, single[t])]
        elif op == 'many':
            v, v2 = ctx.real (f'v{i}', 0.125, 1000), ctx.real (f'vv{i}', 0.125, 1000)
            c.addTriads ({triads[i % 4]: v, triads[(i+1) % 4]: v2})
            acc = acc+[(v, single[i % 4]), (v2, single[(i+1) % 4])]
        elif op == 'reset':
            c.reset ()
            acc = []
        else:
            d = c.copy ()
            if op == 'copy':
                others.append ((c, acc))
                c = d
            else:
                others.append ((d, acc))
    judge (ctx, c, acc, 'current')
    for o, a in others:
        judge (ctx, o, a, 'other copy')


def models_ (ctx):
    """ instances with different models do not influence each other """
    from lulua.carpalx import Carpalx, models
    w, triads, single = setup ('mod01')
    _, _, single2 = setup ('salvo')
    v1, v2 = ctx.real ('v1', 0.125, 100), ctx.real ('v2', 0.125, 100)
    t1, t2 = ctx.fork ('t1', [0, 1, 2, 3]), ctx.fork ('t2', [0, 1, 2, 3])
    a, b = Carpalx (models['mod01'], w), Carpalx (models['salvo'], w)
    b2 = b.copy ()
    a.addTriad (triads[t1], v1)
    b.addTriad (triads[t1], v1)
    b2.addTriad (triads[t2], v2)
    a.addTriad (triads[t2], v2)
    judge (ctx, a, [(v1, single[t1]), (v2, single[t2])], 'mod01')
    judge (ctx, b, [(v1, single2[t1])], 'salvo')
    judge (ctx, b2, [(v2, single2[t2])], 'salvo copy')


def cases (tier):
    n = {'add': 4, 'remove': 3, 'many': 3, 'copy': 4}
    return [(f'history-{m}-{op}', history, dict (n=n[op] if tier == 'quick' else 5, model=m, first=op)) for op in ('add', 'remove', 'many', 'copy') for m in (('mod01', ) if tier == 'quick' else ('mod01', 'salvo'))] + [('models', models_, {})]
