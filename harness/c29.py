""" Import of Microsoft Keyboard Layout Creator files """
import unicodedata
from .common import keyboard, patched
from .exports import Args

PRELOAD = ['lulua.layout', 'lulua.keyboard', 'lulua.util', 'lulua.winkbd']
FUNCTIONS = ['lulua.layout.GenericLayout.fromKlc', 'lulua.layout.importKlc', 'lulua.layout.GenericLayout.deserialize', 'lulua.layout.GenericLayout.specialize']
BOUNDS = {
    'quick': 'files with all keys of the standard layout and 1-6 columns (plain, shift, control, shift+control, AltGr, shift+AltGr); one key with a symbolic code (hexadecimal of 0600-06ff, 0020-00ff, 0100-01ff and 1e00-1eff, literal letter or digit, or none) in any column; some characters on several keys; with and without comments and following sections',
    'thorough': 'same with more keys'}
OUTSIDE = 'dead keys (@), ligatures, other column orders (SHIFTSTATE is ignored), SGCap, decoding of UTF-16, YAML emission'

# columns of the file: keys held
SWITCH = [[()], [('El_shift', ), ('Er_shift', )], [('Fl_ctrl', ), ('Fr_ctrl', )], [('El_shift', 'Fl_ctrl'), ('Er_shift', 'Fr_ctrl')], [('Fr_altgr', )], [('El_shift', 'Fr_altgr')]]

# scancode and virtual key of the standard (US) layout
STANDARD = {0x02: '1', 0x03: '2', 0x04: '3', 0x05: '4', 0x06: '5', 0x07: '6', 0x08: '7', 0x09: '8', 0x0a: '9', 0x0b: '0', 0x0c: 'OEM_MINUS', 0x0d: 'OEM_PLUS',
    0x10: 'Q', 0x11: 'W', 0x12: 'E', 0x13: 'R', 0x14: 'T', 0x15: 'Y', 0x16: 'U', 0x17: 'I', 0x18: 'O', 0x19: 'P', 0x1a: 'OEM_4', 0x1b: 'OEM_6',
    0x1e: 'A', 0x1f: 'S', 0x20: 'D', 0x21: 'F', 0x22: 'G', 0x23: 'H', 0x24: 'J', 0x25: 'K', 0x26: 'L', 0x27: 'OEM_1', 0x28: 'OEM_7', 0x29: 'OEM_3', 0x2b: 'OEM_5',
    0x2c: 'Z', 0x2d: 'X', 0x2e: 'C', 0x2f: 'V', 0x30: 'B', 0x31: 'N', 0x32: 'M', 0x33: 'OEM_COMMA', 0x34: 'OEM_PERIOD', 0x35: 'OEM_2', 0x39: 'SPACE', 0x56: 'OEM_102'}


class File:
    def __init__ (self, lines):
        self.lines = lines

    def __iter__ (self):
        return iter (self.lines)

    def __enter__ (self):
        return self

    def __exit__ (self, *a):
        return False

    def read (self, *a):
        return ''.join (self.lines)

    def close (self):
        pass


class Yaml:
    def __init__ (self):
        self.dumped = []

    def dump (self, data, stream=None, **k):
        self.dumped.append (data)


def code (ctx, kind):
    """ symbolic entry, what it means """
    if kind == 'arabic':
        d = ctx.str ('code', 2, '0123456789abcdef')
        return '06'+d, unicodedata.normalize ('NFD', chr (int ('06'+d, 16)))
    if kind == 'latin':
        d = ctx.str ('code', 2, '0123456789abcdef')
        ctx.assume (int (d, 16) >= 32)
        return '00'+d, unicodedata.normalize ('NFD', chr (int (d, 16)))
    if kind in ('extended', 'additional'):
        # with several levels of decomposition
        p = {'extended': '01', 'additional': '1e'}[kind]
        d = ctx.str ('code', 2, '0123456789abcdef')
        return p+d, unicodedata.normalize ('NFD', chr (int (p+d, 16)))
    if kind == 'literal':
        c = ctx.str ('code', 1, '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
        return c, c
    return ctx.fork ('code', ['-1', '%%']), None


def load (ctx, kind, cols, keys, style):
    import lulua.layout as lo
    sc = ctx.fork ('key', keys)
    col = ctx.fork ('column', list (range (cols)))
    c, text = code (ctx, kind)
    sep = ['\t', '  ', '\t\t'][style % 3]
    lines = ['KBD\tArabic\t"test"\n', '\n', 'COPYRIGHT\t"KEYBOARD LAYOUT, NO LIGATURE"\n', '\n', 'VERSION\t1.0\n', '\n', 'SHIFTSTATE\n', '\n', '0\t//Column 4\n', '1\t//Column 5 : Shft\n', '\n', "LAYOUT\t\t;an extra '@' at the end is a dead key\n", '\n',
        '//SC\tVK_\t\tCap\t0\t1\n', '//--\t----\t----\t----\n']
    want = [{} for i in range (6)]
    for i, (k, vk) in enumerate (STANDARD.items ()):
        codes = []
        for j in range (cols):
            if k == sc and j == col:
                codes.append (c)
                if text is not None:
                    want[j][k] = text
            elif (i+j) % 3 == 0:
                codes.append ('-1')
            elif (i+j) % 7 == 3:
                codes.append ('%%')
            else:
                # the same on some keys
                n = 0x645 if i % 6 == 1 else 0x4e00+10*i+j
                codes.append (f'{n:04x}')
                want[j][k] = chr (n)
        l = f'{k:02x}'+sep+vk+'\t\t0'
        for x in codes:
            l = l+sep+x
        if style == 0:
            l = l+'\t\t// SOMETHING, ELSE; AND MORE'
        elif style == 1:
            l = l+'\t; comment'
        lines.append (l+'\n')
    lines.append ('53\tDECIMAL\t0\t002e\t002e\n')
    lines.append ('\n')
    if style != 1:
        lines.extend (['LIGATURE\n', '\n', '10\t1\t0644\t0627\n', '\n'])
    if style == 2:
        lines.extend (['DEADKEY\t0060\n', '\n', '0061\t00e0\t// a\n'])
    lines.extend (['KEYNAME\n', '\n', '01\tEsc\n', '36\t"Right Shift"\n', '45\tPause\n', '47\t"Num 7"\n', '\n', 'KEYNAME_EXT\n', '\n', '1c\t"Num Enter"\n', 'ENDKBD\n'])
    y = Yaml ()
    args = Args ()
    args.input = 'layout.klc'

    def fakeopen (name, mode='r', buffering=-1, encoding=None, *a, **k):
        import codecs
        ctx.check (name == 'layout.klc', 'the file is read')
        if 'b' in mode:
            ctx.undecided ('decoded in another way')
        ctx.check (mode in ('r', 'rt') and encoding is not None and codecs.lookup (encoding).name == 'utf-16', 'encoding')
        return File (lines)
    with patched (lo, open=fakeopen, yaml=y):
        lo.importKlc (args)
    ctx.check (len (y.dumped) == 1, 'one layout')
    kb = keyboard ()
    layout = lo.GenericLayout.deserialize (y.dumped[0]).specialize (kb)
    button = {}
    for b in kb.keys ():
        w = b.scancode['windows']
        if len (w) == 1 and b.name != 'Fr_space':
            button[w[0]] = b.name
    ctx.check (len (layout.layers) >= cols, 'one layer per column')
    for i, l in enumerate (layout.layers):
        expect = want[i] if i < cols else {}
        ctx.check (set (frozenset (b.name for b in m) for m in l.modifier) == set (frozenset (x) for x in SWITCH[i]), 'keys to reach the layer')
        got = {b.name: t for b, t in l.layout.items ()}
        ctx.check (len (got) == len (expect), 'number of texts')
        for k, t in expect.items ():
            ctx.check (button[k] in got and got[button[k]] == t, 'text of every key')
    ctx.observe (sum (len (l.layout) for l in layout.layers))


def cases (tier):
    q = tier == 'quick'
    r = []
    keys = [0x29, 0x02, 0x1b, 0x2b, 0x39] if q else list (STANDARD)[::3]+[0x29, 0x2b]
    for kind in ('extended', 'additional'):
        r.append ((kind, load, dict (kind=kind, cols=1, keys=keys[:1] if q else keys, style=0)))
    for i, kind in enumerate (('arabic', 'latin', 'literal', 'none')):
        for cols in (1, 2, 6) if q else range (1, 7):
            if q and (i+cols) % 2 and kind != 'none':
                continue
            for style in (0, 1, 2):
                if q and style != (i+cols) % 3 and cols != 2:
                    continue
                r.append ((f'{kind}{cols}{style}', load, dict (kind=kind, cols=cols, keys=keys if cols != 6 else keys[::2], style=style)))
    return r
