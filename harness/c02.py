""" Choice between several combinations which produce the same text """
from io import StringIO
from .common import small, load, keyboard, hand

PRELOAD = ['lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.writer.Writer.chooseCombination', 'lulua.writer.Writer.press', 'lulua.writer.Writer.type', 'lulua.writer.Writer.getHandFinger',
    'lulua.layout.ButtonCombination.__init__', 'lulua.layout.ButtonCombination.__iter__', 'lulua.layout.ButtonCombination.__len__']
BOUNDS = {
    'quick': '2 or 3 offered combinations with 0-2 modifiers each (5 modifier sets) and any of the keys of the keyboard as main key; no previous combination, or one with 0-2 modifiers and any main key; also through typing 2 or 3 characters (one of them unknown) on layouts where they are on several keys of one layer and on several layers, two of them on a key of their own as well',
    'thorough': 'up to 4 offered combinations with 0-2 modifiers each (7 modifier sets) and any main key; every previous combination of that form; also through typing up to 4 characters'}
OUTSIDE = 'combinations with more than two modifiers or more than one main key (the shipped layouts have none)'

MODS = [(), ('El_shift', ), ('Er_shift', ), ('Fr_altgr', ), ('El_shift', 'Fr_altgr'), ('Dl_caps', ), ('El_shift', 'Dl_caps')]


def sign (name):
    return 1 if hand (name) == 'L' else -1


def cost (comb, prev):
    """ (number of keys, imbalance of hands, imbalance of hands with the previous combination) """
    n = len (comb.modifier)+len (comb.buttons)
    bal = 0
    main = 0
    for b in comb.modifier:
        bal = bal+side (b)
    for b in comb.buttons:
        bal = bal+side (b)
        main = main+side (b)
    if prev is None:
        p = 0
    else:
        p = main
        for b in (prev.modifier if len (prev.modifier) > 0 else prev.buttons):
            p = p+side (b)
    return n, abs (bal), abs (p)


def side (b):
    return SIDES[b.name]


SIDES = {}


def setup ():
    for k in keyboard ().keys ():
        SIDES[k.name] = sign (k.name)


def better (a, b):
    """ a strictly before b """
    return a[0] < b[0] or (a[0] == b[0] and (a[1] < b[1] or (a[1] == b[1] and a[2] < b[2])))


def symcomb (ctx, kb, name, nmods):
    from lulua.layout import ButtonCombination
    mod = ctx.fork (name+'m', MODS[:nmods])
    btn = ctx.pick (name+'b', list (kb.keys ()))
    return ButtonCombination (frozenset (kb.find (x) for x in mod), frozenset ([btn]))


def direct (ctx, n, nmods, prev):
    from lulua.writer import Writer
    setup ()
    kb = keyboard ()
    w = Writer (load ('null'))
    p = None
    if prev:
        p = symcomb (ctx, kb, 'prev', nmods)
        w.press (p)
    combs = [symcomb (ctx, kb, f'c{i}', nmods) for i in range (n)]
    r = w.chooseCombination (combs)
    idx = [i for i in range (n) if combs[i] is r]
    ctx.check (len (idx) == 1, 'the choice is one of the offered combinations')
    idx = idx[0]
    ctx.observe (idx)
    costs = [cost (c, p) for c in combs]
    for i, c in enumerate (costs):
        if i < idx:
            ctx.check (better (costs[idx], c), 'the chosen one beats every earlier one')
        elif i > idx:
            ctx.check (not better (c, costs[idx]), 'no later one beats the chosen one')


def typing (ctx, n, keys):
    """ texts on several keys and layers each """
    from lulua.writer import Writer
    setup ()
    a1, a2, b1 = [ctx.fork (x, keys) for x in ('a1', 'a2', 'b1')]
    ctx.assume (a1 != b1 and a1 != a2 and a2 != b1)
    layout = small ([([()], {a1: 'a', a2: 'a', b1: 'b'}), ([('El_shift', ), ('Er_shift', )], {b1: 'c', a1: 'b'}), ([('Fr_altgr', )], {a1: 'c', a2: 'a', b1: 'cb'})])
    text = ctx.str ('text', n, 'abcx')
    prev = None
    for match, comb in Writer (layout).type (StringIO (text)):
        if match is None:
            continue
        # documented order of the alternatives: layers, then modifiers
        offered = layout (match)[1]
        best = None
        for c in offered:
            k = cost (c, prev)
            if best is None or better (k, best[0]):
                best = (k, c)
        ctx.check (comb == best[1], 'typing uses the best alternative given the previous one')
        prev = comb
    ctx.check (True, 'done')


def cases (tier):
    quick = tier == 'quick'
    nm = 5 if quick else 7
    r = []
    for n in ((2, 3) if quick else (2, 3)):
        for prev in (False, True):
            r.append ((f'direct{n}{"p" if prev else ""}', direct, dict (n=n, nmods=nm if n < 3 or not prev or not quick else 3, prev=prev)))
    if not quick:
        r.append (('direct4', direct, dict (n=4, nmods=5, prev=False)))
    for n in (2, 3) if quick else (2, 3, 4):
        r.append ((f'typing{n}', typing, dict (n=n, keys=['Dl1', 'Dr6', 'Fl_space', 'Fr_space'])))
    return r
