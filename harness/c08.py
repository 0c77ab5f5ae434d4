""" Run lengths: consecutive presses by the same hand/finger """
from .common import load, events, isskip, press, total

PRELOAD = ['lulua.stats', 'lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.stats.RunlenStats.__init__', 'lulua.stats.RunlenStats.process', 'lulua.stats.RunlenStats.update', 'lulua.stats.RunlenStats.__eq__', 'lulua.stats.updateDictOp',
    'lulua.writer.Writer.getHandFinger']
BOUNDS = {
    'quick': 'event streams of 0-4 events, every event either a press of any of 16 keys (all hands/fingers, some with modifiers) or a skip; merging of streams of up to 3 and 2 events',
    'thorough': 'event streams of 0-5 events with any key of the keyboard, merging of streams of up to 3 and 3 events'}
OUTSIDE = 'longer streams'

KEYS = [('Dl1', ()), ('Cl1', ('Er_shift', )), ('Dl2', ()), ('Dl3', ()), ('El4', ('Fr_altgr', )), ('Dl4', ()), ('Cl5', ()), ('Fl_space', ()),
    ('Dr6', ()), ('Cr7', ('El_shift', )), ('Dr5', ()), ('Er2', ()), ('Dr3', ()), ('CD_ret', ()), ('Fr_space', ()), ('Bl1', ())]


def runs (evs, key):
    """ all completed runs [(key, length)] of a stream: ended by a different key right afterwards """
    r = []
    last, n = None, 0
    for e in evs:
        if isskip (e):
            last, n = None, 0
            continue
        for b in e.buttons:
            k = key (b)
        if last is not None and k != last:
            r.append ((last, n))
            n = 0
        last = k
        n += 1
    return r


def judge (ctx, s, streams, kb, writer, tag=''):
    from lulua.layout import LEFT, RIGHT, FingerType
    byhand, byfinger = [], []
    for evs in streams:
        byhand += runs (evs, lambda b: writer.getHandFinger (b)[0])
        byfinger += runs (evs, lambda b: writer.getHandFinger (b))
    hand = ctx.pick (tag+'probehand', [LEFT, RIGHT])
    finger = ctx.pick (tag+'probefinger', list (FingerType))
    n = ctx.pick (tag+'probelen', [1, 2, 3, 4, 5, 6])
    h = s.perHandRunlenDist[hand].get (n, 0)
    f = s.fingerRunlenDist[(hand, finger)].get (n, 0)
    ctx.check (h == total (k == hand and l == n for k, l in byhand), 'runs of a hand, by length')
    ctx.check (f == total (k[0] == hand and k[1] == finger and l == n for k, l in byfinger), 'runs of a finger, by length')
    ctx.check (sum (sum (x.values ()) for x in s.perHandRunlenDist.values ()) == len (byhand), 'every run of a hand is counted once')
    ctx.check (sum (sum (x.values ()) for x in s.fingerRunlenDist.values ()) == len (byfinger), 'every run of a finger is counted once')
    ctx.observe (len (byhand), len (byfinger), h, f)


def setup (every):
    from lulua.stats import RunlenStats
    from lulua.writer import Writer
    layout = load ('ar-lulua')
    kb = layout.keyboard
    w = Writer (layout)
    if every:
        combs = [press (kb, k.name) for k in kb.keys () if k.name[1] not in '_']
    else:
        combs = [press (kb, k, m) for k, m in KEYS]
    return RunlenStats, kb, w, combs


def stream (ctx, n, every):
    RunlenStats, kb, w, combs = setup (every)
    s = RunlenStats (w)
    evs = events (ctx, 'e', '?'*n, combs)
    for e in evs:
        s.process (e)
    judge (ctx, s, [evs], kb, w)


def merge (ctx, a, b):
    RunlenStats, kb, w, combs = setup (False)
    s, t = RunlenStats (w), RunlenStats (w)
    ea, eb = events (ctx, 'a', 'p'*a, combs), events (ctx, 'b', 'p'*b, combs)
    for e in ea:
        s.process (e)
    for e in eb:
        t.process (e)
    s.update (t)
    judge (ctx, s, [ea, eb], kb, w)
    # the other one is left alone, also by later merges
    s.update (s)
    judge (ctx, t, [eb], kb, w, 'o')


def equal (ctx, a, b):
    """ statistics are equal iff all runs are """
    RunlenStats, kb, w, combs = setup (False)
    s, t = RunlenStats (w), RunlenStats (w)
    ea, eb = events (ctx, 'a', 'p'*a, combs), events (ctx, 'b', 'p'*b, combs)
    for e in ea:
        s.process (e)
    for e in eb:
        t.process (e)
    def count (r, x):
        return total (x[0] == y[0] and x[1] == y[1] for y in r)
    same = True
    for key in (lambda b: writerhand (w, b), lambda b: w.getHandFinger (b)):
        ra, rb = runs (ea, key), runs (eb, key)
        if len (ra) != len (rb):
            same = False
        else:
            for x in ra:
                same = same and count (ra, x) == count (rb, x)
    ctx.check ((s == t) == same, 'equal iff the same runs were seen')


def writerhand (w, b):
    return w.getHandFinger (b)[0]


def other (ctx):
    RunlenStats, kb, w, combs = setup (False)
    s = RunlenStats (w)
    try:
        s.process (ctx.pick ('what', [None, 'x', 5]))
        ok = True
    except ValueError:
        ok = False
    ctx.check (not ok, 'only typing events are accepted')


def cases (tier):
    quick = tier == 'quick'
    r = [(f'stream{n}', stream, dict (n=n, every=False)) for n in range (5 if quick else 6)]
    r += [(f'merge{a}{b}', merge, dict (a=a, b=b)) for a, b in ([(0, 3), (3, 0), (2, 2)] if quick else [(0, 3), (3, 0), (2, 2), (3, 2), (3, 3)])]
    r += [(f'equal{a}{b}', equal, dict (a=a, b=b)) for a, b in ([(2, 2)] if quick else [(2, 2), (3, 2), (3, 3)])]
    if not quick:
        r.append (('every3', stream, dict (n=3, every=True)))
    r.append (('other', other, {}))
    return r
