""" Words: maximal runs of Arabic letters and diacritics, ended by something else """
from .common import small, isskip, press

PRELOAD = ['lulua.stats', 'lulua.writer', 'lulua.layout', 'lulua.keyboard']
FUNCTIONS = ['lulua.stats.WordStats.__init__', 'lulua.stats.WordStats.process', 'lulua.stats.WordStats.update', 'lulua.stats.WordStats.__eq__', 'lulua.stats.updateDictOp', 'lulua.layout.KeyboardLayout.getText']
BOUNDS = {
    'quick': 'streams of 1-5 presses/skips, every press producing 1-2 symbolic characters (any of 33 characters covering all Unicode categories; any Unicode character at all for streams of 2); merging of two streams of 2-3 characters',
    'thorough': 'streams of up to 7 presses/skips; merging of two streams of 4 characters'}
OUTSIDE = 'longer streams'

# all kinds of characters: letters of any case and none, marks of any kind, digits, separators, punctuation, symbols, control
ALPHABET = 'ابﻻءa\u01c5Aـ\u064e\u0654\u0903\u20dd0١Ⅷ½ \u2028\u2029،-()«»_+$^©\n\u200c\ue000\u0378'

KEYS = ['Dl1', 'Dl2', 'Dl3', 'Dl4', 'Dl5', 'Dr6', 'Dr5']


def build (ctx, pattern, p='', alphabet=None):
    """ pattern: digit = press producing that many characters, s = skip """
    from lulua.writer import SkipEvent, Writer
    from lulua.stats import WordStats
    texts = [ctx.str (f'{p}t{i}', int (k), alphabet) if k != 's' else None for i, k in enumerate (pattern)]
    layout = small ([([()], {KEYS[i]: t for i, t in enumerate (texts) if t is not None})])
    kb = layout.keyboard
    evs = [press (kb, KEYS[i]) if t is not None else SkipEvent (ctx.char (f'{p}s{i}')) for i, t in enumerate (texts)]
    return texts, WordStats (Writer (layout)), evs


def isletter (c):
    import unicodedata
    k = unicodedata.category (c)
    return k == 'Lo' or k == 'Mn'


def words (texts):
    """ list of lists of characters """
    r = []
    cur = []
    for t in texts:
        if t is None:
            cur = []
            continue
        for c in t:
            if isletter (c):
                cur.append (c)
            else:
                if cur:
                    r.append (cur)
                cur = []
    return r


def judge (ctx, s, want):
    n = 0
    for w in want:
        n += 1
        k = ''.join (w)
        m = 0
        for v in want:
            if len (v) == len (w):
                m = m + (1 if ''.join (v) == k else 0)
        ctx.check (s.words.get (k, 0) == m, 'number of occurrences of a word')
    ctx.check (sum (s.words.values ()) == n, 'every word is counted once')
    probe = ctx.str ('probe', 2)
    m = 0
    for w in want:
        if len (w) == 2:
            m = m + (1 if ''.join (w) == probe else 0)
    ctx.check (s.words.get (probe, 0) == m, 'nothing else is a word')
    ctx.observe (n)


def stream (ctx, pattern, alphabet=None):
    texts, s, evs = build (ctx, pattern, alphabet=alphabet)
    for e in evs:
        s.process (e)
    judge (ctx, s, words (texts))


def merge (ctx, a, b):
    ta, s, ea = build (ctx, a, 'a', ALPHABET)
    tb, t, eb = build (ctx, b, 'b', ALPHABET)
    for e in ea:
        s.process (e)
    for e in eb:
        t.process (e)
    s.update (t)
    judge (ctx, s, words (ta)+words (tb))
    n = len (words (tb))
    s.update (s)
    ctx.check (sum (t.words.values ()) == n, 'merging leaves the other one alone')


def other (ctx):
    texts, s, evs = build (ctx, '1')
    try:
        s.process (ctx.pick ('what', [None, 'x', 5]))
        ok = True
    except ValueError:
        ok = False
    ctx.check (not ok, 'only typing events are accepted')


def cases (tier):
    quick = tier == 'quick'
    pats = ['1', '11', '1111', '121', 's11', '1s11', '11s1', '212', '11111']
    if not quick:
        pats += ['111111', '1111111', '22121', '1s1s11', '221s11']
    r = [(f'stream{p}', stream, dict (pattern=p, alphabet=ALPHABET)) for p in pats]
    r += [(f'any{p}', stream, dict (pattern=p)) for p in (['1', '11', 's11'] if quick else ['1', '11', '111', '1s11', '121'])]
    r += [(f'merge{a}-{b}', merge, dict (a=a, b=b)) for a, b in ([('11', '11'), ('12', '11')] if quick else [('11', '11'), ('12', '11'), ('111', '111'), ('1111', '111')])]
    r.append (('other', other, {}))
    return r
