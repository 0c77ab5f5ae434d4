""" Layout descriptions: (de)serialisation and adaption to a keyboard """
from .common import keyboard

PRELOAD = ['lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.layout.GenericLayout.deserialize', 'lulua.layout.GenericLayout.serialize', 'lulua.layout.GenericLayout.__eq__',
    'lulua.layout.GenericLayout.specialize', 'lulua.layout.GenericLayout.buttons', 'lulua.layout.GenericLayout.__len__', 'lulua.keyboard.PhysicalKeyboard.find']
BOUNDS = {
    'quick': '0-3 layers with 0-3 entries each on keys chosen from all keys of the keyboard, texts of 1-2 symbolic characters (any Unicode), 1-2 modifier sets of 0-2 keys per layer; names of up to 9 symbolic characters',
    'thorough': 'same with up to 4 layers'}
OUTSIDE = 'more layers or entries, YAML parsing and emission'

MODS = [[[]], [['El_shift'], ['Er_shift']], [['Fr_altgr', 'El_shift']], [['Dl_caps'], ['Dr1', 'El1']]]


def data (ctx, shape, few=False):
    r = []
    kb = keyboard ()
    allnames = [k.name for k in kb.keys ()]
    for i, n in enumerate (shape):
        l = {}
        for j in range (n):
            name = ctx.pick (f'key{i}{j}', allnames[j::n*12] if few and i+j else allnames[j::n])
            l[name] = ctx.str (f'text{i}{j}', 1+(i+j) % 2)
        r.append ({'modifier': [list (x) for x in MODS[i]], 'layer': l})
    return {'name': ctx.str ('name', 2), 'layout': r}


def flat (d):
    return [([frozenset (m) for m in l['modifier']], l['layer']) for l in d['layout']]


def roundtrip (ctx, shape):
    from lulua.layout import GenericLayout
    d = data (ctx, shape)
    orig = {'name': d['name'], 'layout': [{'modifier': [list (x) for x in l['modifier']], 'layer': dict (l['layer'])} for l in d['layout']]}
    g = GenericLayout.deserialize (d)
    ctx.check (flat (d) == flat (orig) and d['name'] == orig['name'], 'deserialising leaves its input alone')
    ctx.check (g.name == orig['name'], 'name is kept')
    ctx.check (len (g.layers) == len (shape), 'every layer is kept')
    for l, o in zip (g.layers, orig['layout']):
        ctx.check (l.layout == o['layer'], 'texts are kept')
        ctx.check (list (l.modifier) == [frozenset (m) for m in o['modifier']], 'modifiers are kept')
    s = g.serialize ()
    ctx.check (s['name'] == orig['name'] and len (s['layout']) == len (shape), 'serialised name and layers')
    ctx.check (flat (s) == flat (orig), 'serialised data equals the input')
    for l in s['layout']:
        ctx.check (all (isinstance (m, list) for m in l['modifier']), 'modifiers are plain lists')
    h = GenericLayout.deserialize (s)
    ctx.check (h == g, 'round trip gives an equal layout')
    ctx.check (len (g) == sum (shape), 'length counts all entries')
    got = list (g.buttons ())
    want = [x for l in orig['layout'] for x in l['layer'].items ()]
    ctx.check (got == want, 'iteration gives all entries in order')


def differ (ctx):
    """ layouts are equal only if layers are """
    from lulua.layout import GenericLayout
    a = {'name': 'a', 'layout': [{'modifier': [[]], 'layer': {'Dl1': ctx.str ('x', 1), 'Dl2': 'q'}}]}
    k = ctx.pick ('k', ['Dl1', 'Dl3', 'Dl2'])
    m = ctx.fork ('m', [[[]], [['El_shift']]])
    l = {k: ctx.str ('y', 1)}
    l['Dl2'] = 'q'
    b = {'name': 'a', 'layout': [{'modifier': m, 'layer': l}]}
    same = m == [[]] and a['layout'][0]['layer'] == l
    ctx.check ((GenericLayout.deserialize (a) == GenericLayout.deserialize (b)) == same, 'equality compares texts and modifiers')


def special (ctx, shape):
    from lulua.layout import GenericLayout
    d = data (ctx, shape, True)
    kb = keyboard ()
    k = GenericLayout.deserialize (d).specialize (kb)
    ctx.check (k.name == d['name'], 'name is kept')
    ctx.check (k.keyboard is kb, 'the keyboard is kept')
    ctx.check (len (k.layers) == len (shape), 'every layer is kept')
    for l, o in zip (k.layers, d['layout']):
        ctx.check (len (l.layout) == len (o['layer']), 'every entry is kept')
        for name, text in o['layer'].items ():
            ctx.check (l.layout[kb.find (name)] == text, 'text sits on the button of that name')
        ctx.check (list (l.modifier) == [frozenset (kb.find (x) for x in m) for m in o['modifier']], 'modifiers are the buttons of that name')
    ctx.observe ([[(b.name, t) for b, t in l.layout.items ()] for l in k.layers] if len (shape) < 2 else 0)


def unknown (ctx, n, where):
    """ unknown key names are an error, never silently another key """
    from lulua.layout import GenericLayout
    kb = keyboard ()
    name = ctx.str ('name', n)
    if where == 'find':
        try:
            b = kb.find (name)
        except KeyError:
            ctx.check (not (name in [k.name for k in kb.keys ()]), 'existing keys are found')
            return
        ctx.check (b.name == name, 'the key found has that name')
        return
    l = {'name': 'x', 'layout': [{'modifier': [[name]] if where == 'mod' else [[]], 'layer': {name if where == 'key' else 'Dl1': 'a'}}]}
    try:
        k = GenericLayout.deserialize (l).specialize (kb)
    except KeyError:
        ctx.check (not (name in [k.name for k in kb.keys ()]), 'existing keys are found')
        return
    if where == 'key':
        ctx.check ([b.name for b in k.layers[0].layout] == [name], 'the key has that name')
    else:
        ctx.check ([[b.name for b in m] for m in k.layers[0].modifier] == [[name]], 'the modifier has that name')


def cases (tier):
    quick = tier == 'quick'
    r = []
    for s in [(), (0, ), (2, ), (1, 2), (1, 1, 2)] + ([] if quick else [(3, 3), (1, 1, 1, 1), (2, 2, 2)]):
        r.append ((f'roundtrip{"-".join (map (str, s))}', roundtrip, dict (shape=s)))
    for s in [(), (2, ), (1, 1)] + ([] if quick else [(2, 2), (1, 1, 1)]):
        r.append ((f'special{"-".join (map (str, s))}', special, dict (shape=s)))
    r.append (('differ', differ, dict ()))
    for n in (3, 6, 8):
        r.append ((f'find{n}', unknown, dict (n=n, where='find')))
    r.append (('unknownkey', unknown, dict (n=3, where='key')))
    r.append (('unknownmod', unknown, dict (n=3, where='mod')))
    return r
