""" Keyboard descriptions: (de)serialisation, lookup and geometry queries """
PRELOAD = ['lulua.keyboard']
FUNCTIONS = ['lulua.keyboard.Button.__init__', 'lulua.keyboard.Button.serialize', 'lulua.keyboard.Button.deserialize', 'lulua.keyboard.LetterButton', 'lulua.keyboard.MultiRowButton',
    'lulua.keyboard.PhysicalKeyboard.__init__', 'lulua.keyboard.PhysicalKeyboard.serialize', 'lulua.keyboard.PhysicalKeyboard.deserialize',
    'lulua.keyboard.PhysicalKeyboard.__len__', 'lulua.keyboard.PhysicalKeyboard.__getitem__', 'lulua.keyboard.PhysicalKeyboard.keys', 'lulua.keyboard.PhysicalKeyboard.getRow']
BOUNDS = {
    'quick': 'unknown kinds of buttons of 0-8 characters; keyboards of 1-3 rows with 0-2 buttons per half; button kind, width (real or default), mark, names (2-3 characters), scancodes (integers, strings, windows codes of 1-2 integers, or none at all) symbolic',
    'thorough': 'same with up to 4 rows and 3 buttons per half'}
OUTSIDE = 'larger keyboards, YAML parsing and emission'


def button (ctx, p, name, scan=True):
    kind = ctx.fork (p+'kind', [None, 'standard', 'letter', 'multi'])
    d = {'name': name}
    if not scan or ctx.fork (p+'wide', [True, False]):
        d['width'] = ctx.real (p+'width', 0, 20)
    if kind is not None:
        d['kind'] = kind
    if kind == 'multi':
        d['span'] = ctx.int (p+'span', 1, 5)
    if ctx.fork (p+'marked', [False, True]):
        d['isMarked'] = ctx.bool (p+'isMarked')
    s = ctx.fork (p+'scan', [0, 1, 2, 3]) if scan else 1
    if s == 1:
        d['scancode'] = {'xorg': ctx.int (p+'xorg', 0, 255), 'keyman': ctx.str (p+'keyman', 2), 'windows': [ctx.int (p+'w', 0, 255)]}
    elif s == 2:
        d['scancode'] = {'windows': [ctx.int (p+'w1', 0, 255), ctx.int (p+'w2', 0, 255)]}
    elif s == 3:
        d['scancode'] = {'macos': ctx.int (p+'macos', 0, 255)}
    return d


def clone (o):
    if isinstance (o, dict):
        return {k: clone (v) for k, v in o.items ()}
    if isinstance (o, (list, tuple)):
        return [clone (x) for x in o]
    return o


def expected (d):
    """ canonical description """
    r = {'name': d['name'], 'width': d.get ('width', 1), 'isMarked': d.get ('isMarked', False), 'kind': d.get ('kind', 'standard'), 'scancode': clone (d.get ('scancode'))}
    if r['kind'] == 'multi':
        r['span'] = d['span']
    return r


def describe (b):
    kind = {'Button': 'standard', 'LetterButton': 'letter', 'MultiRowButton': 'multi'}[type (b).__name__]
    r = {'name': b.name, 'width': b.width, 'isMarked': b.isMarked, 'kind': kind, 'scancode': clone (b.scancode)}
    if kind == 'multi':
        r['span'] = b.span
    return r


def one (ctx):
    from lulua.keyboard import Button
    d = button (ctx, 'a', ctx.str ('name', 2))
    orig = clone (d)
    b = Button.deserialize (d)
    ctx.check (d == orig, 'deserialising leaves its input alone')
    ctx.check (describe (b) == expected (orig), 'the button is as described')
    if b.scancode is not None and 'windows' in b.scancode:
        ctx.check (isinstance (b.scancode['windows'], tuple), 'windows scancodes are hashable')
    s = b.serialize ()
    ctx.check (describe (b) == expected (orig), 'serialising leaves the button alone')
    if b.scancode is not None and 'windows' in b.scancode:
        ctx.check (isinstance (b.scancode['windows'], tuple), 'windows scancodes are still hashable')
        ctx.check (isinstance (s['scancode']['windows'], list), 'windows scancodes are a plain list')
    ctx.check (expected (s) == expected (orig), 'serialised data describes the same button')
    ctx.check (set (s.keys ()) <= {'name', 'width', 'isMarked', 'kind', 'scancode', 'span'}, 'nothing else is serialised')
    ctx.check (b.serialize () == s, 'serialising twice gives the same')
    c = Button.deserialize (s)
    ctx.check (describe (c) == expected (orig), 'round trip')
    ctx.check (c == b, 'round trip gives an equal button')
    ctx.observe (describe (b)['name'], describe (b)['isMarked'], s['width'])


def unknown (ctx, n):
    """ kinds of buttons which do not exist """
    from lulua.keyboard import Button
    kind = ctx.str ('kind', n, 'abdelmnrstu')
    ctx.assume (kind != 'standard' and kind != 'letter' and kind != 'multi')
    try:
        s = Button.deserialize ({'name': 'Dl1', 'width': 1, 'kind': kind, 'scancode': {}}).serialize ()
    except Exception:
        ctx.check (True, 'unknown kinds are refused')
        return
    ctx.check (s.get ('kind', 'standard') == kind, 'unknown kinds are refused or kept')


def board (ctx, shape):
    from lulua.keyboard import PhysicalKeyboard
    n = 0
    rows = []
    for i, (l, r) in enumerate (shape):
        row = [[], []]
        for h, k in ((0, l), (1, r)):
            for j in range (k):
                d = {'name': f'k{n}', 'width': ctx.real (f'w{n}', 0, 9), 'kind': ['letter', 'standard', 'multi'][n % 3], 'scancode': {'windows': [n]}}
                if n % 3 == 2:
                    d['span'] = 2
                row[h].append (d)
                n += 1
        rows.append (row)
    d = {'name': ctx.str ('name', 2), 'description': ctx.str ('desc', 3), 'rows': rows}
    orig = clone (d)
    kb = PhysicalKeyboard.deserialize (d)
    ctx.check (d == orig, 'deserialising leaves its input alone')
    ctx.check (kb.name == orig['name'] and kb.description == orig['description'], 'name and description')
    ctx.check (len (kb) == n, 'length is the number of buttons')
    flat = [b for row in orig['rows'] for half in row for b in half]
    ctx.check ([describe (b) for b in kb.keys ()] == [expected (b) for b in flat], 'all buttons in order')
    ctx.check (len (kb.rows) == len (shape), 'all rows')
    for i, (got, want) in enumerate (zip (kb, orig['rows'])):
        for h in (0, 1):
            ctx.check ([b.name for b in got[h]] == [b['name'] for b in want[h]], 'buttons stay in their half of the row')
            for b in got[h]:
                ctx.check (kb.getRow (b) == i, 'row of a button')
                ctx.check (kb[b.name] is b and kb.find (b.name) is b, 'buttons are found by name')
    s = kb.serialize ()
    ctx.check ([describe (b) for b in kb.keys ()] == [expected (b) for b in flat], 'serialising leaves the keyboard alone')
    ctx.check (s['name'] == orig['name'] and s['description'] == orig['description'], 'serialised name and description')
    ctx.check ([[[expected (b) for b in half] for half in row] for row in s['rows']] == [[[expected (b) for b in half] for half in row] for row in orig['rows']], 'serialised rows')
    k2 = PhysicalKeyboard.deserialize (s)
    ctx.check ([[[describe (b) for b in half] for half in row] for row in k2] == [[[expected (b) for b in half] for half in row] for row in orig['rows']], 'round trip')
    ctx.check ([describe (b) for b in kb.keys ()] == [expected (b) for b in flat], 'the round trip leaves the first keyboard alone')


def find (ctx):
    """ three buttons with symbolic names, lookup of a symbolic name """
    from lulua.keyboard import PhysicalKeyboard, Button, LetterButton
    bs = [Button (ctx.str ('n0', 2)), LetterButton (ctx.str ('n1', 2)), Button (ctx.str ('n2', 3))]
    ctx.assume (bs[0].name != bs[1].name)
    kb = PhysicalKeyboard ('x', 'y', [([bs[0]], []), ([bs[2]], [bs[1]])])
    name = ctx.str ('q', 2)
    try:
        b = kb[name]
    except KeyError:
        ctx.check (all (x.name != name for x in bs), 'lookup fails for unknown names only')
        return
    ctx.check (b.name == name, 'the button of that name is found')
    ctx.check (any (b is x for x in bs), 'it is a button of the keyboard')
    ctx.check (kb.getRow (b) == (0 if b is bs[0] else 1), 'row')


def cases (tier):
    quick = tier == 'quick'
    r = [('button', one, {}), ('find', find, {})]
    for n in (0, 5, 6, 8):
        r.append ((f'kind{n}', unknown, dict (n=n)))
    for s in [((1, 0), ), ((2, 1), (0, 2)), ((1, 1), (1, 1), (0, 1))] + ([] if quick else [((3, 3), (0, 0), (3, 2), (1, 1))]):
        r.append ((f'board{"-".join (f"{a}{b}" for a, b in s)}', board, dict (shape=s)))
    return r
