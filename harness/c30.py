""" Displayed text """
import unicodedata

PRELOAD = ['lulua.util']
FUNCTIONS = ['lulua.util.displayText']
BOUNDS = {
    'quick': 'all texts of 1-2 characters of any Unicode, and no text',
    'thorough': 'all texts of 1-3 characters of any Unicode, and no text'}
OUTSIDE = 'control characters and spaces other than those on keyboards (tab, return, space, backspace, narrow no-break space)'

SHOW = [('\t', '\u2b7e'), ('\n', '\u21b3'), (' ', '\u2423'), ('\b', '\u2326'), ('\u202f', '[NNBSP]')]


# format characters
FORMAT = [(0xad, 0xad), (0x600, 0x605), (0x61c, 0x61c), (0x6dd, 0x6dd), (0x70f, 0x70f), (0x890, 0x891), (0x8e2, 0x8e2), (0x180e, 0x180e), (0x200b, 0x200f), (0x202a, 0x202e), (0x2060, 0x2064), (0x2066, 0x206f), (0xfeff, 0xfeff), (0xfff9, 0xfffb), (0x110bd, 0x110bd), (0x110cd, 0x110cd), (0x13430, 0x1343f), (0x1bca0, 0x1bca3), (0x1d173, 0x1d17a), (0xe0001, 0xe0001), (0xe0020, 0xe007f)]


def text (ctx, n, chars=None):
    from lulua.util import displayText
    if chars is not None:
        t = ctx.str ('text', n, ''.join (map (chr, chars)))
    else:
        t = ctx.str ('text', n)
        if n == 1:
            ctx.assume (unicodedata.category (t) != 'Cf')
    r = displayText (t)
    if all ([unicodedata.combining (c) != 0 for c in t]):
        ctx.check (r == '\u25cc'+t, 'combining characters are shown on a placeholder')
    elif n == 1 and unicodedata.category (t) == 'Cf':
        words = unicodedata.name (t).replace ('-', ' ').split (' ')
        short = ''
        for i, w in enumerate (words):
            if w != 'TO' or i in (0, len (words)-1):
                short = short+w[0]
        ctx.check (r == '['+short+']', 'format characters are shown by their abbreviated name')
        ctx.check (len (short) > 0 and all ([33 <= ord (c) <= 126 for c in short]), 'visible')
    else:
        for a, b in SHOW:
            if t == a:
                ctx.check (r == b, 'symbol for white space')
                break
        else:
            ctx.check (r == t, 'everything else is shown as is')
    ctx.observe (r if n < 3 else len (r))


def none (ctx):
    from lulua.util import displayText
    c = ctx.char ('unused')
    ctx.check (displayText (None) is None, 'no text')
    ctx.observe (c)


def cases (tier):
    r = [(f'text{n}', text, dict (n=n)) for n in range (1, 3 if tier == 'quick' else 4)] + [('none', none, {})]
    chars = [i for a, b in FORMAT for i in range (a, b+1)]
    for i in range (0, len (chars), 10):
        r.append ((f'format{i}', text, dict (n=1, chars=chars[i:i+10])))
    return r
