""" Shipped keyboard and layouts: key codes, hands and fingers, alphabet """
from io import StringIO
from .common import keyboard, load, layoutNames

PRELOAD = ['lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.writer.Writer.getHandFinger', 'lulua.keyboard.PhysicalKeyboard.getRow', 'lulua.keyboard.PhysicalKeyboard.__getitem__', 'lulua.keyboard.PhysicalKeyboard.deserialize', 'lulua.layout.GenericLayout.deserialize',
    'lulua.layout.GenericLayout.specialize', 'lulua.layout.KeyboardLayout.__call__', 'lulua.layout.KeyboardLayout.getText', 'lulua.layout.KeyboardLayout.isModifier', 'lulua.writer.Writer.type']
BOUNDS = {
    'quick': 'every key of the shipped keyboard as symbolic choice; every letter of the alphabet as symbolic character on all shipped layouts, on ar-lulua every letter with hamza and madda, vowel sign and common punctuation as well',
    'thorough': 'same, and all texts of two letters'}
OUTSIDE = 'Keyman key names (of a German keyboard), other keyboards; whether shipped layouts assign letters to keys as their authors intended'

# physical keys row by row, left half and right half
ROWS = [('Bl1 Bl2 Bl3 Bl4 Bl5 Bl6 Bl7', 'Br6 Br5 Br4 Br3 Br2 Br1 Br_bs'),
    ('Cl_tab Cl1 Cl2 Cl3 Cl4 Cl5', 'Cr7 Cr6 Cr5 Cr4 Cr3 Cr2 Cr1 CD_ret'),
    ('Dl_caps Dl1 Dl2 Dl3 Dl4 Dl5', 'Dr7 Dr6 Dr5 Dr4 Dr3 Dr2 Dr1'),
    ('El_shift El1 El2 El3 El4 El5 El6', 'Er5 Er4 Er3 Er2 Er1 Er_shift'),
    ('Fl_ctrl Fl_win Fl_alt Fl_space', 'Fr_space Fr_altgr Fr_win Fr_menu Fr_ctrl')]
# scancodes (set 1) from left to right
WINDOWS = [[41, *range (2, 14), 14], [15, *range (16, 28), 28], [58, *range (30, 41), 43], [42, 86, *range (44, 54), 54],
    [29, (224, 91), 56, 57, 57, (224, 56), (224, 92), (224, 93), (224, 29)]]
# evdev codes of prefixed ones
EVDEV = {(224, 91): 125, (224, 56): 100, (224, 92): 126, (224, 93): 127, (224, 29): 97}
# virtual key codes (Events.h), None: none given
MACOS = [[50, 18, 19, 20, 21, 23, 22, 26, 28, 25, 29, 27, 24, 51], [48, 12, 13, 14, 15, 17, 16, 32, 34, 31, 35, 33, 30, 36], [57, 0, 1, 2, 3, 5, 4, 38, 40, 37, 41, 39, None],
    [56, None, 6, 7, 8, 9, 11, 45, 46, 43, 47, 44, 60], [59, 55, 58, 49, 49, 61, 54, None, None]]
LETTERS = '\u0621\u0626\u0627\u0628\u0629\u062a\u062b\u062c\u062d\u062e\u062f\u0630\u0631\u0632\u0633\u0634\u0635\u0636\u0637\u0638\u0639\u063a\u0641\u0642\u0643\u0644\u0645\u0646\u0647\u0648\u064a'
MORE = '\u0649\u060c\u061b\u061f.'
VOWELS = '\u064b\u064c\u064d\u064e\u064f\u0650\u0651\u0652'


def rowof ():
    return {k: i for i, (l, r) in enumerate (ROWS) for k in (l+' '+r).split ()}


def touch ():
    """ name of key → hand, finger: the two innermost keys of a row are hit with
    the index finger, the next ones with middle and ring finger, all others with
    the little finger, keys around space with the thumb """
    t = {}
    for i, halves in enumerate (ROWS):
        for hand, keys in zip (('LEFT', 'RIGHT'), halves):
            keys = keys.split ()
            if hand == 'LEFT':
                keys = keys[::-1]
            for j, k in enumerate (keys):
                if i == 4:
                    f = 'LITTLE' if k.endswith ('_ctrl') else 'THUMB'
                else:
                    f = (['INDEX', 'INDEX', 'MIDDLE', 'RING'] + ['LITTLE']*10)[j]
                t[k] = hand, f
    return t


def pick (ctx):
    kb = keyboard ()
    names = [k for r in ROWS for h in r for k in h.split ()]
    ctx.check (sorted (b.name for b in kb.keys ()) == sorted (names), 'keys of the keyboard')
    key = ctx.pick ('key', list (kb.keys ()))
    return kb, key.name, key


def fingers (ctx):
    from lulua.writer import Writer
    kb, n, key = pick (ctx)
    w = Writer (load ('ar-lulua'))
    hand, finger = w.getHandFinger (key)
    want = touch ()[n]
    ctx.check (hand.name == want[0], 'hand')
    ctx.check (finger.name == want[1], 'finger')
    ctx.check (kb.getRow (key) == rowof ()[n], 'row')
    ctx.observe (hand.name, finger.name)


def codes (ctx):
    kb, n, key = pick (ctx)
    order = [(l+' '+r).split () for l, r in ROWS]
    win = {k: v if isinstance (v, tuple) else (v, ) for o, c in zip (order, WINDOWS) for k, v in zip (o, c)}
    mac = {k: v for o, c in zip (order, MACOS) for k, v in zip (o, c)}
    got = key.scancode
    w = win[n]
    ctx.check (tuple (got['windows']) == w, 'scancode')
    ctx.check (got['xorg'] == 8+(w[0] if len (w) == 1 else EVDEV[w]), 'X11 key code')
    ctx.check (got.get ('macos') == mac[n], 'macOS key code')
    ctx.observe (got['xorg'])


def alphabet (ctx, layout, n, chars):
    from lulua.writer import Writer, SkipEvent
    l = load (layout)
    text = ctx.str ('text', n, chars)
    # canonical decomposition
    for a, b in zip ('\u0622\u0623\u0624\u0625\u0626', ('\u0627\u0653', '\u0627\u0654', '\u0648\u0654', '\u0627\u0655', '\u064a\u0654')):
        text = text.replace (a, b)
    out = ''
    for match, event in Writer (l).type (StringIO (text)):
        ctx.check (not isinstance (event, SkipEvent), 'can be typed')
        out = out+l.getText (event)
        ctx.check (all ([not l.isModifier (frozenset ([b])) for b in event.buttons]), 'not by a modifier')
    ctx.check (out == text, 'what was typed')
    ctx.observe (len (text))


def cases (tier):
    q = tier == 'quick'
    r = [('fingers', fingers, {}), ('codes', codes, {})]
    for l in layoutNames ():
        if l == 'null':
            continue
        full = LETTERS+' '
        if l == 'ar-lulua':
            full += MORE+VOWELS+'\u0622\u0623\u0624\u0625'
        r.append ((f'alphabet-{l}', alphabet, dict (layout=l, n=1, chars=full)))
        if not q:
            r.append ((f'alphabet-{l}2', alphabet, dict (layout=l, n=2, chars=full)))
    return r
