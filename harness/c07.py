""" Button, combination and unknown character counts """
from .common import load, events, isskip, press, total

PRELOAD = ['lulua.stats', 'lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.stats.SimpleStats.__init__', 'lulua.stats.SimpleStats.process', 'lulua.stats.SimpleStats.update', 'lulua.stats.SimpleStats.__eq__', 'lulua.stats.updateDictOp',
    'lulua.layout.ButtonCombination', 'lulua.keyboard.Button']
BOUNDS = {
    'quick': 'event streams of 0-3 events, every event either any of 12 combinations (0-2 modifiers) or a skip of any Unicode character; merging of streams of up to 2 and 1 events',
    'thorough': 'event streams of 0-5 events, merging of streams of up to 3 and 2 events'}
OUTSIDE = 'longer streams'

COMBS = [('Dl1', ()), ('Dr6', ()), ('Cl3', ()), ('Dl1', ('El_shift', )), ('Dl1', ('Er_shift', )), ('Dr6', ('El_shift', )), ('Dr6', ('Fr_altgr', )),
    ('Cl3', ('El_shift', 'Fr_altgr')), ('Dr6', ('Er_shift', 'Fr_altgr')), ('Fl_space', ()), ('CD_ret', ()), ('Dl1', ('Dl_caps', ))]


def judge (ctx, s, evs, kb, combs, tag=''):
    btn = ctx.pick (tag+'probebtn', [kb[x] for x in ('Dl1', 'Dr6', 'Cl3', 'El_shift', 'Er_shift', 'Fr_altgr', 'Dl_caps', 'Fl_space', 'El5')])
    comb = ctx.pick (tag+'probecomb', combs)
    char = ctx.char (tag+'probechar')
    presses = [e for e in evs if not isskip (e)]
    skips = [e for e in evs if isskip (e)]
    ctx.check (s.buttons.get (btn, 0) == total (btn in e.modifier or btn in e.buttons for e in presses), 'presses of every button')
    ctx.check (s.combinations.get (comb, 0) == total (e == comb for e in presses), 'uses of every combination')
    ctx.check (s.unknown.get (char, 0) == total (e.char == char for e in skips), 'unknown characters')
    ctx.check (sum (s.combinations.values ()) == len (presses), 'every press is counted once')
    ctx.check (sum (s.unknown.values ()) == len (skips), 'every skip is counted once')
    n = 0
    for e in presses:
        n = n + len (e.modifier) + len (e.buttons)
    ctx.check (sum (s.buttons.values ()) == n, 'every key of a combination is counted')
    ctx.observe (sum (s.buttons.values ()), sum (s.combinations.values ()), sum (s.unknown.values ()))


def stream (ctx, n):
    from lulua.stats import SimpleStats
    from lulua.writer import Writer
    layout = load ('ar-lulua')
    kb = layout.keyboard
    combs = [press (kb, k, m) for k, m in COMBS]
    s = SimpleStats (Writer (layout))
    evs = events (ctx, 'e', '?'*n, combs)
    for e in evs:
        s.process (e)
    judge (ctx, s, evs, kb, combs)


def merge (ctx, a, b, peek=False):
    from lulua.stats import SimpleStats
    from lulua.writer import Writer
    layout = load ('ar-lulua')
    kb = layout.keyboard
    combs = [press (kb, k, m) for k, m in COMBS[:6]]
    s, t = SimpleStats (Writer (layout)), SimpleStats (Writer (layout))
    ea, eb = events (ctx, 'a', '?'*a, combs), events (ctx, 'b', '?'*b, combs)
    for e in ea:
        s.process (e)
    for e in eb:
        t.process (e)
    if peek:
        # looking at counts must not change them
        for d, k in ((s.combinations, combs[0]), (s.buttons, kb['Dl1']), (s.unknown, 'x'), (t.combinations, combs[1]), (t.buttons, kb['Dr6']), (t.unknown, 'y')):
            try:
                d[k]
            except KeyError:
                pass
    s.update (t)
    judge (ctx, s, ea+eb, kb, combs)
    # the other one is left alone, also by what happens later
    s.process (combs[0])
    judge (ctx, t, eb, kb, combs, 'o')


def other (ctx):
    """ anything else is rejected """
    from lulua.stats import SimpleStats
    from lulua.writer import Writer
    s = SimpleStats (Writer (load ('ar-lulua')))
    try:
        s.process (ctx.pick ('what', [None, 'x', 5]))
        ok = True
    except ValueError:
        ok = False
    ctx.check (not ok, 'only typing events are accepted')
    ctx.check (len (s.buttons) == 0 and len (s.combinations) == 0 and len (s.unknown) == 0, 'nothing was counted')


def cases (tier):
    quick = tier == 'quick'
    r = [(f'stream{n}', stream, dict (n=n)) for n in range (4 if quick else 6)]
    r += [(f'merge{a}{b}', merge, dict (a=a, b=b)) for a, b in ([(0, 2), (2, 0), (1, 1), (2, 1)] if quick else [(0, 3), (3, 0), (1, 1), (2, 1), (2, 2), (3, 2)])]
    r.append (('peek', merge, dict (a=1, b=1, peek=True)))
    r.append (('other', other, {}))
    return r
