""" Triads: windows of three consecutive presses """
from .common import load, events, isskip, press, total

PRELOAD = ['lulua.stats', 'lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.stats.TriadStats.__init__', 'lulua.stats.TriadStats.process', 'lulua.stats.TriadStats.update', 'lulua.stats.TriadStats.__eq__', 'lulua.stats.updateDictOp']
BOUNDS = {
    'quick': 'event streams of 0-5 events, every event a press of any of 5 combinations (2 letters, a shifted letter, a space and the return key) or a skip; every key of the keyboard, with and without modifiers, within a stream of 4; merging of streams of 3 and 3 presses',
    'thorough': 'event streams of 0-6 events, merging of streams of 4 and 3 events'}
OUTSIDE = 'longer streams'

IGNORED = ('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab')
COMBS = [('Dl1', ()), ('Dr6', ()), ('Dr6', ('El_shift', )), ('Fl_space', ()), ('CD_ret', ())]


def triads (evs):
    r = []
    cur = []
    for e in evs:
        if isskip (e):
            cur = []
            continue
        for b in e.buttons:
            name = b.name
        if name in IGNORED:
            continue
        cur.append (e)
        if len (cur) >= 3:
            r.append (cur[-3:])
    return r


def judge (ctx, s, streams, probes, tag=''):
    want = []
    for evs in streams:
        want += triads (evs)
    probe = [ctx.pick (f'{tag}probe{i}', probes) for i in range (3)]
    got = s.triads.get ((probe[0], probe[1], probe[2]), 0)
    ctx.check (got == total (t[0] == probe[0] and t[1] == probe[1] and t[2] == probe[2] for t in want), 'number of occurrences of a triad')
    ctx.check (sum (s.triads.values ()) == len (want), 'every triad is counted once')
    for t in s.triads:
        ctx.check (len (t) == 3, 'triads have three combinations')
    ctx.observe (len (want), got)


def setup ():
    from lulua.stats import TriadStats
    from lulua.writer import Writer
    layout = load ('ar-lulua')
    kb = layout.keyboard
    return TriadStats, kb, Writer (layout), [press (kb, k, m) for k, m in COMBS]


def stream (ctx, pattern):
    TriadStats, kb, w, combs = setup ()
    s = TriadStats (w)
    evs = events (ctx, 'e', pattern, combs)
    for e in evs:
        s.process (e)
    judge (ctx, s, [evs], combs[:4])


def anykey (ctx):
    """ every key of the keyboard in the middle """
    TriadStats, kb, w, combs = setup ()
    s = TriadStats (w)
    k = ctx.pick ('key', [press (kb, x.name, m) for x in kb.keys () for m in ((), ('El_shift', ), ('Fr_altgr', 'Er_shift')) if x.name not in m])
    evs = [combs[0], combs[1], k, combs[2]]
    for e in evs:
        s.process (e)
    want = triads (evs)
    for t in want:
        ctx.check (s.triads.get (tuple (t), 0) >= 1, 'triad is counted')
    ctx.check (sum (s.triads.values ()) == len (want), 'every triad is counted once')
    ctx.observe (len (want))


def merge (ctx, a, b):
    TriadStats, kb, w, combs = setup ()
    combs = combs[:4]
    s, t = TriadStats (w), TriadStats (w)
    ea, eb = events (ctx, 'a', a, combs), events (ctx, 'b', b, combs)
    for e in ea:
        s.process (e)
    for e in eb:
        t.process (e)
    try:
        # looking at counts must not change them
        s.triads[(combs[0], combs[1], combs[0])]
    except KeyError:
        pass
    s.update (t)
    judge (ctx, s, [ea, eb], combs[:3])
    s.update (s)
    judge (ctx, t, [eb], combs[:3], 'o')
    u = TriadStats (w)
    for e in eb:
        u.process (e)
    ctx.check (t == u, 'the same stream gives equal statistics')


def other (ctx):
    TriadStats, kb, w, combs = setup ()
    s = TriadStats (w)
    try:
        s.process (ctx.pick ('what', [None, 'x', 5]))
        ok = True
    except ValueError:
        ok = False
    ctx.check (not ok, 'only typing events are accepted')


def cases (tier):
    quick = tier == 'quick'
    r = [(f'stream{n}', stream, dict (pattern='?'*n)) for n in range (5 if quick else 6)]
    r.append (('stream5', stream, dict (pattern='ppppp')) if quick else ('stream6', stream, dict (pattern='pp?ppp')))
    r += [(f'merge{a}-{b}', merge, dict (a=a, b=b)) for a, b in ([('ppp', 'ppp'), ('pp', 'pppp')] if quick else [('ppp', 'ppp'), ('pp', 'pppp'), ('pppp', 'ppp'), ('?pp', '?pp')])]
    r += [('anykey', anykey, {}), ('other', other, {})]
    return r
