""" Numbers in reports """
PRELOAD = ['lulua.report']
FUNCTIONS = ['lulua.report.approx', 'lulua.report.fraction', 'lulua.report.numspace', 'lulua.report.arabnum']
BOUNDS = {
    'quick': 'approximation of all integers up to 10^15 and all (real) numbers up to 10^13, both languages; fractions of all real numbers up to 3 with denominators up to 5, 10 and 12; strings of 0-2 characters of any Unicode',
    'thorough': 'same with fractions up to 6 and strings of 0-3 characters'}
OUTSIDE = 'negative and larger numbers, limited precision of decimal numbers, other languages, templates'

UNITS = {'en': ['', 'thousand', 'million', 'billion'], 'ar': ['', 'ألف', 'مليون', 'مليار']}


def big (ctx, real, lang):
    from lulua.report import approx
    i = ctx.real ('i', 0, 10**13) if real else ctx.int ('i', 0, 10**15)
    n, unit = approx (i, lang) if lang != 'en' else approx (i)
    ctx.check (unit in UNITS[lang], 'known unit')
    k = UNITS[lang].index (unit)
    scale = 1000**k
    n = float (n)
    ctx.check (n*scale-i <= scale*0.05001 and i-n*scale <= scale*0.05001, 'value is preserved up to rounding to one digit')
    tenth = n*10
    ctx.check (abs (tenth-round (tenth)) <= 1e-6, 'one digit after the decimal point')
    if k < 3:
        ctx.check (n < 1000, 'largest possible unit')
    if k > 0:
        ctx.check (n >= 1, 'smallest possible unit')
    ctx.observe (k)


def frac (ctx, hi, denom):
    from lulua.report import fraction
    from fractions import Fraction
    n = ctx.real ('n', 0, hi)
    s = fraction (n) if denom == 10 else fraction (n, denom)
    ctx.check (s.count ('\u2044') == 1, 'fraction slash')
    a, b = s.split ('\u2044')
    a, b = int (a), int (b)
    ctx.check (1 <= b <= denom, 'small denominator')
    err = abs (n*b-a)
    for q in range (1, denom+1):
        for p in (a*q//b, a*q//b+1, a*q//b-1):
            if p >= 0:
                ctx.check (err*q <= abs (n*q-p)*b+1e-9, 'best approximation')
    ctx.observe (b <= denom)


def strings (ctx, n):
    from lulua.report import numspace, arabnum
    s = ctx.str ('s', n)
    r = numspace (s)
    ctx.check (len (r) == n, 'number of characters')
    for a, b in zip (s, r):
        if a == ' ':
            ctx.check (b == '\u2007', 'figure space')
        else:
            ctx.check (a == b, 'others are kept')
    r2 = arabnum (s)
    ctx.check (len (r2) == n, 'number of characters')
    for a, b in zip (s, r2):
        if '0' <= a <= '9':
            ctx.check (ord (b) == 0x660+ord (a)-ord ('0'), 'arabic-indic digit of the same value')
        elif a == ',':
            ctx.check (b == '\u066c', 'thousands separator')
        elif a == '.':
            ctx.check (b == '\u066b', 'decimal separator')
        else:
            ctx.check (a == b, 'others are kept')
    ctx.observe (r, r2)


def cases (tier):
    q = tier == 'quick'
    r = [(f'approx-{l}-{t}', big, dict (real=t == 'real', lang=l)) for l in UNITS for t in ('int', 'real')]
    for d in (5, 10, 12):
        r.append ((f'fraction{d}', frac, dict (hi=(3 if d == 10 else 1) if q else 6, denom=d)))
    for n in range (3 if q else 4):
        r.append ((f'strings{n}', strings, dict (n=n)))
    return r
