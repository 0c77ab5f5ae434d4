""" Identity of buttons and button combinations, in one process and across """
from .common import keyboard

PRELOAD = ['lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.keyboard.Button.__init__', 'lulua.keyboard.Button.__eq__', 'lulua.keyboard.Button.__hash__', 'lulua.keyboard.Button.name',
    'lulua.keyboard.Button.__reduce__', 'lulua.keyboard.Button.serialize', 'lulua.keyboard.Button.deserialize',
    'lulua.layout.ButtonCombination.__init__', 'lulua.layout.ButtonCombination.__eq__', 'lulua.layout.ButtonCombination.__hash__',
    'lulua.layout.ButtonCombination.__len__', 'lulua.layout.ButtonCombination.__iter__', 'lulua.layout.ButtonCombination.__getstate__', 'lulua.layout.ButtonCombination.__setstate__']
BOUNDS = {
    'quick': 'two or three buttons of any kind with symbolic names of 1-2 Unicode characters; combinations of 0-2 modifiers and 1-2 buttons out of 4 symbolically named ones; combinations of 2-3 keys of the shipped keyboard given in different order; pickled and loaded in another process which has created up to two other symbolically named buttons before',
    'thorough': 'same with four buttons, names of 1-3 characters, and up to three other buttons'}
OUTSIDE = 'the pickle byte format: pickling is modelled by taking objects apart (__reduce_ex__/__getstate__) and rebuilding them (__setstate__); the witness runs use real pickle'


def make (ctx, p, n):
    from lulua.keyboard import Button, LetterButton, MultiRowButton
    kind = ctx.fork (p+'kind', [0, 1, 2])
    name = ctx.str (p+'name', n)
    w = ctx.real (p+'w', 0, 9)
    if kind == 0:
        return name, Button (name, width=w)
    elif kind == 1:
        return name, LetterButton (name, width=w, isMarked=ctx.bool (p+'mark'))
    return name, MultiRowButton (name, 2, width=w)


def buttons (ctx, lens):
    bs = [make (ctx, f'b{i}', n) for i, n in enumerate (lens)]
    d = {}
    for i, (name, b) in enumerate (bs):
        d[b] = i
    for i, (name, b) in enumerate (bs):
        ctx.check (b.name == name, 'a button keeps its name')
        last = i
        for j, (oname, o) in enumerate (bs):
            same = len (name) == len (oname) and name == oname
            ctx.check ((b == o) == same, 'buttons are equal iff they have the same name')
            ctx.check ((b != o) == (not same), 'inequality is the opposite')
            if same:
                ctx.check (hash (b) == hash (o), 'equal buttons have equal hashes')
                last = max (last, j)
        ctx.check (d[b] == last, 'buttons of the same name share a dictionary entry')
    ctx.observe (len (d))
    ctx.check (bs[0][1] != 'x' and not (bs[0][1] == bs[0][0]), 'a button is not its name')


def combinations (ctx, lens):
    """ two combinations over the same pool """
    from lulua.layout import ButtonCombination
    from lulua.keyboard import Button
    pool = [Button (ctx.str (f'n{i}', n)) for i, n in enumerate (lens)]
    for i, a in enumerate (pool):
        for b in pool[:i]:
            ctx.assume (a.name != b.name)
    sets = []
    for k in range (2):
        m = frozenset (pool[i] for i in range (2) if ctx.fork (f'm{k}{i}', [False, True]))
        b = frozenset (pool[i] for i in range (1, len (pool)) if ctx.fork (f'b{k}{i}', [False, True]))
        sets.append ((m, b))
    # equal sets built from different objects
    again = frozenset (Button (x.name, width=3) for x in sets[0][0]), frozenset (Button (x.name) for x in sets[0][1])
    a, b, c = [ButtonCombination (m, x) for m, x in sets+[again]]
    for x, y, s, t in ((a, b, sets[0], sets[1]), (a, c, sets[0], again), (b, c, sets[1], again)):
        same = frozenset (p.name for p in s[0]) == frozenset (p.name for p in t[0]) and frozenset (p.name for p in s[1]) == frozenset (p.name for p in t[1])
        ctx.check ((x == y) == same, 'combinations are equal iff modifiers and buttons are the same')
        ctx.check ((x != y) == (not same), 'inequality is the opposite')
        if same:
            ctx.check (hash (x) == hash (y), 'equal combinations have equal hashes')
            ctx.check ({x: 1}.get (y) == 1, 'equal combinations share a dictionary entry')
    ctx.check (len (a) == len (sets[0][0]) + len (sets[0][1]), 'length is the number of keys')
    ctx.check (sorted (x.name for x in a) == sorted ([x.name for x in sets[0][0]]+[x.name for x in sets[0][1]]), 'iteration gives all keys')
    ctx.check (a.modifier == sets[0][0] and a.buttons == sets[0][1], 'parts')
    ctx.observe (a == b, len (a))


def order (ctx, firsts, seconds, across):
    """ keys given in any order """
    import pickle
    from lulua.layout import ButtonCombination
    kb = keyboard ()
    keys = list (kb.keys ())
    x = ctx.fork ('x', keys[:firsts])
    y = ctx.fork ('y', keys[firsts:firsts+seconds])
    z = kb['Dl1']
    a, b = [ButtonCombination (frozenset (m), frozenset ([z])) for m in ([x, y], [y, x])]
    c, d = [ButtonCombination (frozenset (), frozenset (m)) for m in ([x, z, y], [y, x, z])]
    if across:
        data = pickle.dumps ((a, b, c, d))
        names = x.name, y.name
        ctx.newprocess ()
        from lulua.keyboard import Button
        for n in reversed (names):
            Button (n)
        a, b, c, d = pickle.loads (data)
    for s, t in ((a, b), (c, d)):
        ctx.check (s == t and hash (s) == hash (t), 'order of keys is irrelevant')
        ctx.check ({s: 1}.get (t) == 1, 'equal combinations share a dictionary entry')
    ctx.observe (len (a), len (c))


def pickled (ctx, lens, other):
    """ take buttons and combinations to another process """
    import pickle
    from lulua.layout import ButtonCombination
    bs = [make (ctx, f'b{i}', n) for i, n in enumerate (lens)]
    comb = ButtonCombination (frozenset ([bs[0][1]]), frozenset ([bs[1][1]]))
    was = [(name, b.width, b.isMarked, type (b).__name__, b.span if type (b).__name__ == 'MultiRowButton' else None) for name, b in bs]
    data = pickle.dumps (([b for n, b in bs], comb, {comb: 5, 'x': bs[0][1]}))
    del bs, comb
    # other process
    ctx.newprocess ()
    from lulua.layout import ButtonCombination
    from lulua.keyboard import Button
    foreign = [Button (ctx.str (f'o{i}', n)) for i, n in enumerate (other)]
    for i, b in enumerate (foreign):
        ctx.check (b.name == b.name, 'name')
    buttons, comb, d = pickle.loads (data)
    ctx.check ([(b.name, b.width, b.isMarked, type (b).__name__, b.span if type (b).__name__ == 'MultiRowButton' else None) for b in buttons] == was, 'buttons survive pickling')
    for b, w in zip (buttons, was):
        for f in foreign:
            ctx.check ((b == f) == (w[0] == f.name), 'restored buttons are compared by name')
            if w[0] == f.name:
                ctx.check (hash (b) == hash (f), 'restored buttons hash by name')
    want = ButtonCombination (frozenset ([Button (was[0][0])]), frozenset ([Button (was[1][0])]))
    ctx.check (comb == want, 'combinations survive pickling')
    ctx.check (hash (comb) == hash (want), 'with their hash')
    ctx.check (d[want] == 5, 'dictionary keys survive pickling')
    ctx.check (d['x'] is buttons[0], 'shared buttons stay shared')
    ctx.observe (sorted (x.name for x in comb))


def loaded (ctx, every):
    """ statistics of one process, keyboard of another """
    import pickle
    from lulua.layout import ButtonCombination
    from lulua.keyboard import Button
    kb = keyboard ()
    mod = ctx.pick ('mod', [kb[x] for x in ('El_shift', 'Er_shift', 'Fr_altgr')])
    btn = ctx.pick ('btn', [x for i, x in enumerate (kb.keys ()) if i % every == 0])
    data = pickle.dumps (ButtonCombination (frozenset ([mod]), frozenset ([btn])))
    m, b = mod.name, btn.name
    ctx.newprocess ()
    from lulua.layout import ButtonCombination
    from lulua.keyboard import Button
    o = ctx.fork ('other', [None, 'Dl1', 'Fr_altgr', 'CD_ret', 'new'])
    if o is not None:
        Button (o)
    kb = keyboard ()
    comb = pickle.loads (data)
    ctx.check ([x.name for x in comb.modifier] == [m] and [x.name for x in comb.buttons] == [b], 'the combination means the same keys in another process')
    ctx.check (comb == ButtonCombination (frozenset ([kb[m]]), frozenset ([kb[b]])), 'and equals the one of that process')
    ctx.observe (m, b)


def cases (tier):
    quick = tier == 'quick'
    r = [('buttons', buttons, dict (lens=(1, 2, 1) if quick else (1, 2, 1, 2))),
        ('combinations', combinations, dict (lens=(1, 1, 2) if quick else (1, 1, 2, 2))),
        ('pickled', pickled, dict (lens=(1, 1), other=(1, 1))),
        ('pickled0', pickled, dict (lens=(1, 2), other=())),
        ('loaded', loaded, dict (every=3 if quick else 1))]
    r += [('order', order, dict (firsts=8 if quick else 16, seconds=24 if quick else 48, across=False)),
        ('orderacross', order, dict (firsts=4 if quick else 16, seconds=9 if quick else 48, across=True))]
    if not quick:
        r.append (('pickled3', pickled, dict (lens=(1, 1, 2), other=(1, 2, 1))))
    return r
