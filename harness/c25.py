""" Export to X11 (xmodmap), Keyman and macOS """
from .common import keyboard
from .exports import export, generic, Tree, Serialising, IllFormed, parsexml, MODS

PRELOAD = ['lulua.render', 'lulua.layout', 'lulua.keyboard', 'lulua.util']
FUNCTIONS = ['lulua.render.renderXmodmap', 'lulua.render.renderKeyman', 'lulua.render.renderKeylayout', 'lulua.render.unique', 'lulua.layout.GenericLayout.specialize']
BOUNDS = {
    'quick': 'layouts of 1-4 layers on the shipped keyboard, two keys per layer, of which those of one layer vary among seven keys, one of them with a symbolic text of 1 (X11) or 1-2 (others) characters of any Unicode; the serialised macOS document with a text of any ASCII character',
    'thorough': 'same with varying keys in all layers (up to three layers)'}
OUTSIDE = 'date, comments, XML serialisation of other than ASCII characters (trusted to the standard library), texts of several characters in xmodmap (not supported), different texts on the two halves of the space bar'

KEYS = ['Dl1', 'Cr5', 'Bl1', 'Er1', 'Fl_space', 'CD_ret', 'Br_bs']


def symtext (ctx, name, n):
    t = ctx.str (name, n)
    for c in t:
        ctx.assume ((ord (c) < 0xd800) | (ord (c) > 0xdfff))
    return t


def build (ctx, nlayers, nkeys, ln, layer, free):
    """ [{key: text}] """
    if nkeys is None:
        return full (ctx, nlayers, ln, layer)
    layers = [{} for i in range (nlayers)]
    for i in range (nlayers):
        for j in range (nkeys):
            if i == layer or (free and j == 0):
                k = ctx.fork (f'key{i}_{j}', KEYS[:4] if j == 0 else KEYS[4:])
            else:
                k = KEYS[(2*i+3*j) % 7]
            if i == layer and j == 0:
                t = symtext (ctx, 'text', ln)
            elif k == 'Fl_space':
                t = ' '
                layers[i]['Fr_space'] = t
            else:
                t = {'CD_ret': '\n', 'Br_bs': '\b'}.get (k) or chr (0x628+7*i+j)
            layers[i][k] = t
    return layers


def full (ctx, nlayers, ln, layer):
    """ text on every key which is not a modifier, one of them symbolic """
    mods = set (y for x in MODS for z in x for y in z)
    names = [b.name for b in keyboard ().keys () if b.name not in mods and all (f in b.scancode for f in ('xorg', 'keyman', 'macos'))]
    names.remove ('Fr_space')
    layers = []
    for i in range (nlayers):
        l = {k: chr (0x400+100*i+j) for j, k in enumerate (names)}
        l['Fr_space'] = l['Fl_space']
        layers.append (l)
    k = ctx.fork ('key', names[::16])
    t = symtext (ctx, 'text', ln)
    # different from all the others (equal texts are covered by the small layouts)
    ctx.assume ((ord (t[0]) < 0x400) | (ord (t[0]) > 0x7ff))
    layers[layer][k] = t
    if k == 'Fl_space':
        layers[layer]['Fr_space'] = layers[layer][k]
    return layers


def ofname (kb, field):
    return {b.name: b.scancode[field] for b in kb.keys () if field in b.scancode}


SPECIAL = {'Tab': '\t', 'Return': '\n', 'space': ' ', 'BackSpace': '\b'}


def keysym (s):
    """ text of an X11 keysym name """
    if s == 'NoSymbol':
        return None
    for k, v in SPECIAL.items ():
        if s == k:
            return v
    assert s[0] == 'U', 'unicode keysym'
    return chr (int (s[1:], 16))


def xmodmap (ctx, nlayers, nkeys, layer, free=False):
    layers = build (ctx, nlayers, nkeys, 1, layer, free)
    out = export ('renderXmodmap', generic ([(MODS[i], l) for i, l in enumerate (layers)]))
    kb = keyboard ()
    code = ofname (kb, 'xorg')
    got = {}
    other = []
    for line in out.text ().split ('\n'):
        if line.startswith ('!'):
            continue
        if line.strip ().startswith ('keycode'):
            a, b = line.split ('=')
            a = a.split ()
            ctx.check (len (a) == 2, 'key code')
            a = int (a[1], 0)
            ctx.check (a not in got, 'every key code once')
            got[a] = b.split ()
        else:
            other.append (' '.join (line.split ()))
    mods = {m[0]: i for i in range (nlayers) for m in MODS[i] if m}
    # third column group is used for the fourth layer
    column = [0, 1, 2, 4]
    ctx.check (set (got) == set (code.values ()), 'every key of the keyboard')
    for name, c in code.items ():
        syms = got[c]
        if name in mods:
            ctx.check (syms[0] == [None, 'Shift_L', 'ISO_Group_Shift', 'ISO_Level3_Shift'][mods[name]], 'modifiers switch layers')
            continue
        for i in range (8):
            s = syms[i] if i < len (syms) else 'NoSymbol'
            if i in column and column.index (i) < nlayers:
                want = layers[column.index (i)].get (name)
                t = keysym (s)
                if want is None:
                    ctx.check (t is None, 'key without text')
                else:
                    ctx.check (t is not None and t == want, 'text of every key')
            else:
                ctx.check (s == 'NoSymbol', 'no further levels')
    ctx.check ('add Mod3 = ISO_First_Group' in other and 'add Mod5 = ISO_Level3_Shift' in other, 'modifiers are bound')
    ctx.check (out.closed, 'file is closed')
    ctx.observe (out.text ().split ('\n')[-6:])


def keyman (ctx, nlayers, nkeys, layer, ln, free=False):
    layers = build (ctx, nlayers, nkeys, ln, layer, free)
    out = export ('renderKeyman', generic ([(MODS[i], l) for i, l in enumerate (layers)]))
    code = ofname (keyboard (), 'keyman')
    got = []
    head = []
    for line in out.text ().split ('\n'):
        if line.startswith ('+'):
            a, b = line[1:].split ('>')
            a = a.strip ()
            ctx.check (a.startswith ('[') and a.endswith (']'), 'keys')
            t = ''
            for x in b.split ():
                ctx.check (x.startswith ('U+'), 'characters')
                t = t+chr (int (x[2:], 16))
            *m, k = a[1:-1].split ()
            got.append ((set (m), k, t))
        else:
            head.append (line)
    want = []
    for i, l in enumerate (layers):
        for m in MODS[i]:
            for k, t in l.items ():
                want.append ((set (code[x] for x in m), code[k], t))
    ctx.check (all ([any (a == x and b == y for x, y, _ in want) for a, b, _ in got]), 'no other rules')
    for m, k, t in want:
        r = [y for a, b, y in got if a == m and b == k]
        # at most one for each half of the space bar
        ctx.check (1 <= len (r) <= len ([1 for a, b, y in want if a == m and b == k]), 'one rule per key and modifier')
        for x in r:
            ctx.check (x == t, 'text of every key')
    ctx.check (any ('group(main) using keys' in x for x in head) and any ('begin Unicode > use(main)' in x for x in head), 'preamble')
    ctx.observe (len (got))


def macos (ctx, nlayers, nkeys, layer, ln, free=False):
    layers = build (ctx, nlayers, nkeys, ln, layer, free)
    tree = Tree ()
    out = export ('renderKeylayout', generic ([(MODS[i], l) for i, l in enumerate (layers)]), tree=tree)
    code = ofname (keyboard (), 'macos')
    ctx.check (len (tree.roots) == 1, 'one document')
    root = tree.roots[0]
    ctx.check (root.tag == 'keyboard', 'document type')
    mm, = root.findall ('modifierMap')
    ks, = root.findall ('keyMapSet')
    lo, = root.findall ('layouts/layout')
    ctx.check (mm.get ('id') != ks.get ('id') and lo.get ('modifiers') == mm.get ('id') and lo.get ('mapSet') == ks.get ('id'), 'references')
    sel = {int (x.get ('mapIndex')): [m.get ('keys') for m in x] for x in mm}
    ctx.check (sel == {0: [''], 1: ['anyShift caps?'], 2: ['caps'], 3: ['anyOption']}, 'modifiers select layers')
    maps = {}
    for x in ks:
        ctx.check (int (x.get ('index')) not in maps, 'one map per layer')
        maps[int (x.get ('index'))] = x
    ctx.check (set (maps) == set (range (nlayers)), 'one map per layer')
    for i, l in enumerate (layers):
        elems = list (maps[i])
        ctx.check (all ([any (e.get ('code') == str (code[k]) for k in l) for e in elems]), 'no other entries')
        for k, t in l.items ():
            r = [e.get ('output') for e in elems if e.get ('code') == str (code[k])]
            ctx.check (1 <= len (r) <= len ([1 for x in l if code[x] == code[k]]), 'one entry per key')
            for x in r:
                ctx.check (x == t, 'text of every key')
    ctx.observe (len (maps))


def document (ctx, ln):
    """ what is written can be read """
    t = symtext (ctx, 'text', ln)
    for c in t:
        ctx.assume ((ord (c) > 0) & (ord (c) < 0x80))
    native = type (ctx).__name__ == 'ConcCtx'
    out = export ('renderKeylayout', generic ([(MODS[0], {'Dl1': t, 'Br_bs': '\b'})]), tree=None if native else Serialising ())
    text = None
    for x in out.parts:
        x = x.decode ('utf-8') if isinstance (x, bytes) else x
        text = x if text is None else text+x
    ctx.observe (text)
    try:
        root = parsexml (text)
    except IllFormed:
        root = None
    ctx.check (root is not None, 'well-formed document')
    code = ofname (keyboard (), 'macos')
    got = {e.get ('code'): e.get ('output') for e in root.findall ('keyMapSet/keyMap/key')}
    ctx.check (set (got) == {str (code['Dl1']), str (code['Br_bs'])}, 'keys')
    ctx.check (got[str (code['Dl1'])] == t and got[str (code['Br_bs'])] == '\b', 'text of every key')


def cases (tier):
    q = tier == 'quick'
    r = [(f'document{n}', document, dict (ln=n)) for n in ((1, ) if q else (1, 2))]
    for n in range (1, 5):
        for layer in range (n):
            if q and n < 4 and layer != n-1:
                continue
            kw = dict (nlayers=n, nkeys=2, layer=layer)
            if not q:
                kw.update (free=n < 4, nkeys=2 if n > 1 else 3)
            r.append ((f'xmodmap{n}{layer}', xmodmap, kw))
            r.append ((f'keyman{n}{layer}', keyman, dict (kw, ln=1+layer % 2)))
            r.append ((f'macos{n}{layer}', macos, dict (kw, ln=1+layer % 2)))
    for layer in (1, ) if q else range (4):
        kw = dict (nlayers=4, nkeys=None, layer=layer)
        r.append ((f'xmodmapfull{layer}', xmodmap, kw))
        r.append ((f'keymanfull{layer}', keyman, dict (kw, ln=1+layer % 2)))
        r.append ((f'macosfull{layer}', macos, dict (kw, ln=1+layer % 2)))
    return r
