""" Character mapping applied to corpus text """
PRELOAD = ['lulua.text']
FUNCTIONS = ['lulua.text.mapChars', 'lulua.text.charMap']
BOUNDS = {'quick': 'strings of 0-2 characters over all of Unicode with the shipped map, 3 characters over the mapped and some other characters; maps of 0-2 symbolic entries (one character to 0-3 characters) and strings of 0-3 symbolic characters',
    'thorough': 'strings of 0-3 characters over all of Unicode with the shipped map; maps of 0-3 symbolic entries and strings of 0-4 symbolic characters'}
OUTSIDE = 'longer strings'


def hom (ctx, n, alphabet=None):
    from lulua.text import mapChars, charMap
    s = ctx.str ('s', n, alphabet)
    r = mapChars (s, charMap)
    ctx.observe (s, r)
    exp = ''
    for c in s:
        exp = exp + charMap.get (c, c)
    ctx.check (r == exp, 'every character is replaced by its mapping or kept')
    ctx.check (mapChars (r, charMap) == r, 'mapping is idempotent')


def canonical (ctx):
    """ the shipped map is a normalisation: digits and presentation forms keep their meaning """
    import unicodedata
    from lulua.text import mapChars, charMap
    c = ctx.str ('c', 1)
    for x in '0123456789أإئؤآﻻﻹﻷ,;?%\u00a0':
        if c == x:
            c = x
            break
    else:
        ctx.check (mapChars (c, charMap) == c, 'everything else is kept')
        return
    r = mapChars (c, charMap)
    if c in '0123456789':
        ctx.check (len (r) == 1 and unicodedata.digit (r) == unicodedata.digit (c), 'digits keep their value')
    elif c in 'أإئؤآﻻﻹﻷ':
        ctx.check (unicodedata.normalize ('NFKD', c) == unicodedata.normalize ('NFKD', r), 'composed letters are decomposed')
        ctx.check (len (r) >= 2, 'into more than one character')
    else:
        ctx.check (r != c and len (r) == 1, 'punctuation is replaced by one character')
    ctx.observe (r)


def anymap (ctx, lens, n):
    from lulua.text import mapChars
    m, l = {}, []
    for i, k in enumerate (lens):
        x, y = ctx.char (f'k{i}'), ctx.str (f'v{i}', k)
        m[x] = y
        l.append ((x, y))
    s = ctx.str ('s', n)
    r = mapChars (s, m)
    exp = []
    for c in s:
        for x, y in reversed (l):
            if c == x:
                exp.append (y)
                break
        else:
            exp.append (c)
    ctx.check (r == ''.join (exp), 'every character is replaced by its mapping or kept')
    ctx.observe (r)


def cases (tier):
    quick = tier == 'quick'
    r = [(f'map{n}', hom, dict (n=n)) for n in ((0, 1, 2) if quick else (0, 1, 2, 3))]
    if quick:
        r.append (('map3', hom, dict (n=3, alphabet='أﻻ0 ,\u00a0xا')))
    r.append (('canonical', canonical, {}))
    for l, n in [((), 2), ((1, ), 3), ((0, 2), 2), ((3, 1), 2)] + ([] if quick else [((2, 1), 3), ((1, 2, 0), 3), ((1, ), 4)]):
        r.append ((f'any{"".join (map (str, l))}x{n}', anymap, dict (lens=l, n=n)))
    return r
