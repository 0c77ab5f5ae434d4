""" Export to AnySoftKeyboard (Android) and Klavaro """
from .common import keyboard
from .exports import export, generic, Tree, MODS as MODIFIERS

PRELOAD = ['lulua.render', 'lulua.layout', 'lulua.keyboard', 'lulua.util']
FUNCTIONS = ['lulua.render.renderAsk', 'lulua.render.renderKlavaro', 'lulua.layout.KeyboardLayout.getButtonText', 'lulua.layout.KeyboardLayout.isModifier']
BOUNDS = {
    'quick': 'layouts of 1-4 (Klavaro: 2-4; with one symbolic character also 5 and 6) layers on the shipped keyboard, up to two keys per layer varying among six, one with a symbolic text of 1-2 characters (U+0020-02FF, U+0620-064A, U+2010-2027, U+10000-101FC; the second one of the two in the middle), or a composable sequence; one layout with text on all keys',
    'thorough': 'same with all pairs of keys, all layers with text on all keys'}
OUTSIDE = 'XML serialisation (trusted to the standard library); texts of symbolic characters which compose (fixed sequences only); texts beginning or ending with line breaks on a letter key'

MODS = MODIFIERS+[[('El_shift', 'Fr_altgr'), ('Er_shift', 'Fr_altgr')], [('El_shift', 'Dl_caps')]]
KEYS = ['Bl1', 'Cr5', 'Dl3', 'Er5', 'El1', 'Fl_space']
RANGES = [(0x20, 0x2ff), (0x620, 0x64a), (0x2010, 0x2027), (0x10000, 0x101fc)]
# text, canonical composition
COMPOSE = [('\u0627\u0653', '\u0622'), ('e\u0301', '\xe9'), ('\u212b', '\xc5'), ('\u0644\u0627', '\u0644\u0627'), ('\u064a\u0654', '\u0626'), ('\u0628\u0651\u064e', '\u0628\u064e\u0651')]


def symtext (ctx, name, n):
    t = ctx.str (name, n)
    for i, c in enumerate (t):
        a, b = ctx.fork (f'range{i}', RANGES if i == 0 else RANGES[1:3])
        ctx.assume (ord (c) >= a)
        ctx.assume (ord (c) <= b)
    return t


def build (ctx, nlayers, layer, ln, every):
    """ [{key: text}], composed texts """
    kb = keyboard ()
    mods = set (y for x in MODS[:nlayers] for z in x for y in z)
    layers = []
    usable = [b.name for b in kb.keys () if b.name not in mods]
    for i in range (nlayers):
        if every:
            layers.append ({k: chr (0x4e00+100*i+j) for j, k in enumerate (usable)})
        else:
            layers.append ({KEYS[j]: chr (0x4e00+100*i+j) for j in (i % 4, (i+2) % 4)})
    k = ctx.fork ('key', usable[1::13] if every else [x for x in KEYS if x in usable])
    want = [dict (l) for l in layers]
    if ln == 0:
        t, c = ctx.fork ('text', COMPOSE)
    else:
        t = c = symtext (ctx, 'text', ln)
    layers[layer][k] = t
    want[layer][k] = c
    return layers, want, mods


def letters (kb):
    """ names of letter keys by row, left to right """
    r = []
    for l, rr in kb:
        x = [b.name for b in list (l) + list (rr) if type (b).__name__ == 'LetterButton']
        r.append (x)
    return r


def ask (ctx, nlayers, layer, ln, every=False):
    layers, want, mods = build (ctx, nlayers, layer, ln, every)
    tree = Tree ()
    export ('renderAsk', generic ([(MODS[i], l) for i, l in enumerate (layers)]), tree=tree)
    ctx.check (len (tree.roots) == 1, 'one document')
    root = tree.roots[0]
    ctx.check (root.tag == 'Keyboard' and root.get ('xmlns:android') is not None and root.get ('xmlns:ask') is not None, 'document type')
    rows = list (root)
    expect = [[k for k in r if k not in mods] for r in letters (keyboard ())[:-1]]
    expect = [r for r in expect if r]
    ctx.check (len (rows) == len (expect)+1, 'one row per row of the keyboard')
    for i, (row, keys) in enumerate (zip (rows, expect)):
        elems = list (row)
        ctx.check (row.tag == 'Row' and len (elems) == len (keys), 'one key per key')
        w = float (row.get ('android:keyWidth').rstrip ('%p'))
        ctx.check (w*len (keys) <= 100.1 and w*len (keys) >= 99.9, 'keys fill the row')
        ctx.check ((row.get ('android:rowEdgeFlags') == 'top') == (i == 0), 'top row')
        for e, k in zip (elems, keys):
            t = [l.get (k) or '' for l in want]
            ctx.check (e.tag == 'Key' and e.get ('android:keyLabel') == t[0], 'label is the text of the first layer')
            codes = e.get ('android:codes')
            c = [chr (int (x)) for x in codes.split (',')] if codes else []
            ctx.check (len (c) == len (t[0]) and all ([x == y for x, y in zip (c, t[0])]), 'codes are the text of the first layer')
            more = ''
            for x in t[1:]:
                more = more+x
            ctx.check (e.get ('android:popupCharacters') == more, 'popup offers the other layers')
            hint = e.get ('ask:hintLabel')
            ctx.check (more.startswith (hint), 'hint')
    last = rows[-1]
    ctx.check (last.get ('android:rowEdgeFlags') == 'bottom', 'bottom row')
    ctx.check ([e.get ('android:codes') for e in last] == ['10', '32', '-5'], 'return, space and backspace')
    ctx.check (sum (float (e.get ('android:keyWidth').rstrip ('%p')) for e in last) == 100, 'keys fill the bottom row')
    ctx.observe (len (rows))


def klavaro (ctx, nlayers, layer, ln, every=False):
    layers, want, mods = build (ctx, nlayers, layer, ln, every)
    out = export ('renderKlavaro', generic ([(MODS[i], l) for i, l in enumerate (layers)]))
    expect = ''
    rows = [r for r in letters (keyboard ()) if r]
    for l in want[:2]:
        for r in rows:
            for k in r:
                expect = expect+(l.get (k) or ' ')
            expect = expect+'\n'
    ctx.check (out.text () == expect, 'one line per row with the text of every key, two layers')
    ctx.check (out.closed, 'file is closed')
    ctx.observe (len (out.text ()))


def cases (tier):
    q = tier == 'quick'
    r = []
    for n in range (1, 5):
        for layer in range (n):
            for ln in (0, 1, 2):
                if q and n == 3 and ln != 1:
                    continue
                if q and n == 4 and ln == 2 and layer % 2 == 0:
                    continue
                kw = dict (nlayers=n, layer=layer, ln=ln)
                r.append ((f'ask{n}{layer}{ln}', ask, kw))
                if n > 1 and (layer < 2 or not q):
                    r.append ((f'klavaro{n}{layer}{ln}', klavaro, kw))
    for n in (5, 6):
        for layer in (0, n-1) if q else range (n):
            r.append ((f'ask{n}{layer}1', ask, dict (nlayers=n, layer=layer, ln=1)))
            r.append ((f'klavaro{n}{layer}1', klavaro, dict (nlayers=n, layer=layer, ln=1)))
    for layer in (1, ) if q else range (4):
        for ln in (1, ) if q else (0, 1, 2):
            r.append ((f'askfull{layer}{ln}', ask, dict (nlayers=4, layer=layer, ln=ln, every=True)))
            r.append ((f'klavarofull{layer}{ln}', klavaro, dict (nlayers=4, layer=layer, ln=ln, every=True)))
    return r
