""" Looking up text on a layout and back """
from .common import small, load, mapping, names, keyboard

PRELOAD = ['lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.layout.KeyboardLayout.__init__', 'lulua.layout.KeyboardLayout.__call__', 'lulua.layout.KeyboardLayout.__iter__',
    'lulua.layout.KeyboardLayout.getText', 'lulua.layout.KeyboardLayout.getButtonText', 'lulua.layout.KeyboardLayout.modifierToLayer',
    'lulua.layout.KeyboardLayout.isModifier', 'lulua.layout.KeyboardLayout.copy', 'lulua.layout.KeyboardLayout.__eq__', 'pygtrie.CharTrie']
BOUNDS = {
    'quick': 'layouts of 3 layers with 3-4 symbolic entries (1-2 characters of any Unicode) on 3 keys, lookup of 0-3 symbolic characters (any Unicode); copies of layouts with 3 symbolic entries; ar-lulua and ar-osx with every single Unicode character',
    'thorough': 'layouts of 3 layers with 3-6 symbolic entries (1-3 characters of any Unicode), lookup of 0-4 symbolic characters; all shipped layouts with every single Unicode character'}
OUTSIDE = 'larger symbolic layouts, longer texts'

MODS = [[()], [('El_shift', ), ('Er_shift', )], [('Fr_altgr', ), ('El_shift', 'Fr_altgr')]]
KEYS = ['Dl1', 'Dr6', 'Cl3']


def build (ctx, lens):
    spec = [(m, {}) for m in MODS]
    for i, k in enumerate (lens):
        spec[i % 3][1][KEYS[(i//3+i) % 3]] = ctx.str (f'entry{i}', k)
    return spec, small (spec)


def judge (ctx, layout, entries, buf):
    """ entries: [(text, modifier, button)] """
    best = None
    for t, m, b in entries:
        if len (t) <= len (buf) and (best is None or len (t) > len (best)):
            if buf[:len (t)] == t:
                best = t
    try:
        match, combs = layout (buf)
    except KeyError:
        ctx.check (best is None, 'lookup fails only without any matching entry')
        ctx.observe (None)
        return
    ctx.check (best is not None, 'lookup succeeds only for an entry')
    ctx.check (match == best, 'the longest matching entry is found')
    want = set ()
    for t, m, b in entries:
        if len (t) == len (best) and t == best:
            want.add ((m, b))
    got = [(c.modifier, c.buttons) for c in combs]
    ctx.observe (match, [(sorted (x.name for x in m), sorted (x.name for x in b)) for m, b in got])
    ctx.check (len (got) == len (want), 'every combination is listed once')
    ctx.check (set (got) == want, 'exactly the combinations producing the text are listed')
    for c in combs:
        ctx.check (layout.getText (c) == match, 'the combination gives the text back')


def sym (ctx, lens, n):
    spec, layout = build (ctx, lens)
    kb = layout.keyboard
    entries = []
    for mods, l in spec:
        for k, t in l.items ():
            for m in mods:
                entries.append ((t, frozenset (kb.find (x) for x in m), frozenset ([kb.find (k)])))
    judge (ctx, layout, entries, ctx.str ('buf', n))


def inverse (ctx, lens):
    """ every entry can be found again, layers and modifiers are reported right """
    from lulua.layout import ButtonCombination
    spec, layout = build (ctx, lens)
    kb = layout.keyboard
    for i, (mods, l) in enumerate (spec):
        for m in mods:
            m = frozenset (kb.find (x) for x in m)
            ctx.check (layout.isModifier (m), 'modifiers of a layer are modifiers')
            num, layer = layout.modifierToLayer (m)
            ctx.check (num == i, 'modifier selects its layer')
            for k, t in l.items ():
                comb = ButtonCombination (m, frozenset ([kb.find (k)]))
                ctx.check (layout.getText (comb) == t, 'combination produces the text of the layer')
                match, combs = layout (t)
                ctx.check (match == t, 'the text of an entry is found')
                ctx.check (comb in combs, 'its combination is among the alternatives')
    for k in KEYS+['El1']:
        ctx.check (list (layout.getButtonText (kb.find (k))) == [l.get (k) for m, l in spec], 'texts of a button in layer order')
    other = ctx.pick ('other', list (kb.keys ()))
    known = {'El_shift', 'Er_shift', 'Fr_altgr'}
    ctx.check (layout.isModifier (frozenset ([other])) == (other.name in known), 'nothing else is a modifier')
    # iteration lists every text once with all its combinations
    items = list (layout)
    total = 0
    for t, combs in items:
        total += len (combs)
        for c in combs:
            ctx.check (layout.getText (c) == t, 'iteration pairs text and combinations')
    ctx.check (total == sum (len (l)*len (m) for m, l in spec), 'iteration lists every combination once')
    ctx.check (len (set (t for t, c in items)) == len (items), 'iteration lists every text once')


def duplicate (ctx, lens):
    """ copies do the same, independent of what happens to the original """
    spec, layout = build (ctx, lens)
    kb = layout.keyboard
    c = layout.copy ()
    ctx.check (c is not layout and c == layout and c.name == layout.name, 'copy is equal')
    ctx.check (c.keyboard == kb, 'same keyboard')
    for l in layout.layers:
        l.layout.clear ()
    entries = [(t, frozenset (kb.find (x) for x in m), frozenset ([kb.find (k)])) for mods, l in spec for k, t in l.items () for m in mods]
    judge (ctx, c, entries, ctx.str ('buf', 1))


def shipped (ctx, name):
    layout = load (name)
    judge (ctx, layout, [(t, m, frozenset ([b])) for t, m, b in mapping (layout)], ctx.str ('buf', 1))


def cases (tier):
    quick = tier == 'quick'
    r = []
    shapes = [((1, 2, 1), 0), ((1, 1, 1), 1), ((1, 2, 1), 3), ((1, 2, 2, 1), 2)]
    if not quick:
        shapes += [((1, 2, 3), 4), ((1, 2, 2, 1), 3), ((1, 1, 1, 1, 1), 2), ((1, 1, 1, 1, 1, 1), 1)]
    for l, n in shapes:
        r.append ((f'sym{"".join (map (str, l))}x{n}', sym, dict (lens=l, n=n)))
    for l in [(1, 2, 1), (1, 1, 1, 2)] + ([] if quick else [(1, 1, 1, 1, 1), (1, 2, 3, 1)]):
        r.append ((f'inverse{"".join (map (str, l))}', inverse, dict (lens=l)))
    for l in [(1, 1, 1), (1, 1, 2)]:
        r.append ((f'copy{"".join (map (str, l))}', duplicate, dict (lens=l)))
    from .common import layoutNames
    for l in (('ar-lulua', 'ar-osx') if quick else layoutNames ()):
        r.append ((f'ship-{l}', shipped, dict (name=l)))
    return r
