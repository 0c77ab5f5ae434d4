"""
Typing a text: every input character is accounted for exactly once, in order;
matches are the longest ones; the emitted combination produces the match.
"""
from io import StringIO
from .common import small, load, mapping, layoutNames

PRELOAD = ['lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.writer.Writer.type', 'lulua.writer.Writer.chooseCombination', 'lulua.writer.Writer.press',
    'lulua.layout.KeyboardLayout.__init__', 'lulua.layout.KeyboardLayout.__call__', 'lulua.layout.KeyboardLayout.getText',
    'lulua.layout.GenericLayout.deserialize', 'lulua.layout.GenericLayout.specialize', 'pygtrie.CharTrie.longest_prefix']
BOUNDS = {
    'quick': 'layouts with 2-3 symbolic entries of 1-3 characters each (any Unicode) and texts of 3-4 symbolic characters (any Unicode); all shipped layouts with every text of 2 characters out of a 14 character alphabet with combining and multi-character sequences, ar-lulua with 1 character of all Unicode and 3 of the alphabet; the empty layout with texts of 0-3 characters (any Unicode)',
    'thorough': 'layouts with 2-5 symbolic entries of 1-3 characters each (any Unicode) and texts of 3-6 symbolic characters (any Unicode); all shipped layouts with every text of 3 characters out of the alphabet and 1 character of all Unicode, ar-lulua with 2 characters of all Unicode; the empty layout with texts of 0-4 characters (any Unicode)'}
OUTSIDE = 'longer texts, larger symbolic layouts, streams whose read() returns short counts before the end of file, surrogate code points'


def expect (layout, text, pos):
    """ longest entry which is a prefix of text[pos:], None if there is none """
    best = None
    for t, m, btn in mapping (layout):
        n = len (t)
        if n > 0 and pos+n <= len (text) and (best is None or n > best):
            if text[pos:pos+n] == t:
                best = n
    return best


def judge (ctx, layout, text, events):
    from lulua.writer import SkipEvent
    pos = 0
    for match, event in events:
        ctx.check (pos < len (text), 'nothing is emitted past the end of the text')
        best = expect (layout, text, pos)
        if isinstance (event, SkipEvent):
            ctx.check (match is None, 'a skip carries no match')
            ctx.check (best is None, 'only characters no entry starts with are skipped')
            ctx.check (event.char == text[pos:pos+1], 'the skipped character is the next one')
            pos += 1
        else:
            ctx.check (match is not None and len (match) > 0, 'a match is not empty')
            ctx.check (best is not None, 'untypeable characters are skipped')
            ctx.check (len (match) == best, 'the longest entry matches')
            ctx.check (match == text[pos:pos+len (match)], 'the match is the next part of the text')
            ctx.check (layout.getText (event) == match, 'the combination produces the match')
            pos += len (match)
    ctx.check (pos == len (text), 'every character is accounted for')


def run (ctx, layout, text):
    from lulua.writer import Writer
    events = list (Writer (layout).type (StringIO (text)))
    ctx.observe ([(m, e.char if m is None else (sorted (b.name for b in e.modifier), sorted (b.name for b in e.buttons))) for m, e in events])
    judge (ctx, layout, text, events)


def symlayout (ctx, lens, n):
    """ layout with symbolic entries, symbolic text """
    spec = [([()], {}), ([('El_shift',), ('Er_shift',)], {}), ([('Fr_altgr', )], {})]
    pos = ['Dl1', 'Dr6', 'Cl3']
    for i, k in enumerate (lens):
        spec[i % 3][1][pos[i//3]] = ctx.str (f'entry{i}', k)
    text = ctx.str ('text', n)
    run (ctx, small (spec), text)


def shipped (ctx, name, n, alphabet=None):
    run (ctx, load (name), ctx.str ('text', n, alphabet))


ALPHA = 'لاأآإ\u0654\u0655\u0651ﷲب\n \tz'


def cases (tier):
    quick = tier == 'quick'
    r = []
    for n in ((0, 1, 3) if quick else (0, 1, 2, 3, 4)):
        r.append ((f'null{n}', shipped, dict (name='null', n=n)))
    shapes = [((1, 2, 3), 3), ((2, 2), 4), ((1, 1, 2), 3)]
    if not quick:
        shapes += [((1, 2, 2, 3), 5), ((3, 3, 1), 6), ((1, 1, 1, 2, 2), 4)]
    for l, n in shapes:
        r.append ((f'sym{"".join (map (str, l))}x{n}', symlayout, dict (lens=l, n=n)))
    for l in layoutNames ():
        r.append ((f'ship-{l}', shipped, dict (name=l, n=2 if quick else 3, alphabet=ALPHA)))
        if not quick or l == 'ar-lulua':
            r.append ((f'full-{l}', shipped, dict (name=l, n=1)))
    if quick:
        r.append (('ship3-ar-lulua', shipped, dict (name='ar-lulua', n=3, alphabet=ALPHA)))
    else:
        r.append (('full2-ar-lulua', shipped, dict (name='ar-lulua', n=2)))
    return r
